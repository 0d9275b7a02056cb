// Package vlib drives the generated checks: it connects rapid (generation,
// shrinking) with replay files, evidence counters and child processes.
package vlib

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs is what the execution of one case reports besides its verdict.
type Obs struct {
	NonTrivial bool              `json:"nt"`
	Classes    map[string]int    `json:"cl,omitempty"`
	Notes      map[string]string `json:"no,omitempty"`
	// Inconclusive marks a case that could not be judged (resources).
	Inconclusive string `json:"inc,omitempty"`
}

// Class counts an occurrence of a class of cases.
func (o *Obs) Class(format string, a ...interface{}) {
	if o.Classes == nil {
		o.Classes = map[string]int{}
	}
	o.Classes[fmt.Sprintf(format, a...)]++
}

// Note attaches a value to the sample written to the evidence.
func (o *Obs) Note(k, format string, a ...interface{}) {
	if o.Notes == nil {
		o.Notes = map[string]string{}
	}
	o.Notes[k] = fmt.Sprintf(format, a...)
}

// Opt configures a check.
type Opt struct {
	ID       string // property
	Quick    int    // number of cases over all shards, quick tier
	Thorough int    // number of cases over all shards, thorough tier
	Isolated bool   // run each case in a child process
	Timeout  time.Duration
	MaxCPU   time.Duration // processor time after which a case counts as never ending (0: maxCaseCPU)
}

type record struct {
	Kind    string          `json:"kind"` // "stats" | "violation" | "begin" | "end" | "known"
	ID      string          `json:"id"`
	Test    string          `json:"test"`
	Eval    int             `json:"eval,omitempty"`
	Skipped int             `json:"skipped,omitempty"`
	Incon   int             `json:"incon,omitempty"`
	Hashes  []string        `json:"hashes,omitempty"`
	Classes map[string]int  `json:"classes,omitempty"`
	Samples []interface{}   `json:"samples,omitempty"`
	Msg     string          `json:"msg,omitempty"`
	Case    json.RawMessage `json:"case,omitempty"`
	IncMsgs []string        `json:"incmsgs,omitempty"`
}

func emit(r record) {
	p := os.Getenv("VERIF_OUT")
	if p == "" {
		return
	}
	f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b, _ := json.Marshal(r)
	f.Write(append(b, '\n'))
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

var start = time.Now()

const childOut = "VERIF_CHILD_OUT"
const childCase = "VERIF_CHILD_CASE"

// ChildEnv is true in a child process executing a single isolated case.
func ChildEnv() bool { return os.Getenv(childCase) != "" }

type childResult struct {
	Err string `json:"err"`
	Obs Obs    `json:"obs"`
}

type inconclusive string

func (e inconclusive) Error() string { return string(e) }

// Inconclusive returns an error that is not a violation.
func Inconclusive(format string, a ...interface{}) error {
	return inconclusive(fmt.Sprintf(format, a...))
}

// IsInconclusive tells whether an error is one of Inconclusive's.
func IsInconclusive(err error) bool {
	_, ok := err.(inconclusive)
	return ok
}

func guard(f func() error) (err error) {
	returned := false
	defer func() {
		// a panic with a nil value is one too, and recover does not tell it
		if r := recover(); r != nil || !returned {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	err = f()
	returned = true
	return err
}

// Check runs one generated check. gen draws a case (a JSON-able value), run
// executes and judges it.
func Check[C any](t *testing.T, opt Opt, gen func(*rapid.T) C, run func(C, *Obs) error) {
	name := t.Name()
	if f := os.Getenv(childCase); f != "" {
		var c C
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		if err := json.Unmarshal(b, &c); err != nil {
			t.Fatal(err)
		}
		var res childResult
		err = guard(func() error { return run(c, &res.Obs) })
		if err != nil {
			if inc, ok := err.(inconclusive); ok {
				res.Obs.Inconclusive = string(inc)
			} else {
				res.Err = err.Error()
			}
		}
		out, _ := json.Marshal(res)
		if err := os.WriteFile(os.Getenv(childOut), out, 0644); err != nil {
			t.Fatal(err)
		}
		os.Exit(0)
	}

	exec1 := func(c C, raw []byte, o *Obs) error {
		if opt.Isolated {
			return runChild(name, opt, raw, o)
		}
		return guard(func() error { return run(c, o) })
	}

	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var r record
		if err := json.Unmarshal(b, &r); err != nil {
			t.Fatal(err)
		}
		if r.Test != name {
			return
		}
		var c C
		if err := json.Unmarshal(r.Case, &c); err != nil {
			t.Fatal(err)
		}
		var o Obs
		emit(record{Kind: "begin", ID: opt.ID, Test: name})
		err = exec1(c, r.Case, &o)
		if inc, ok := err.(inconclusive); ok {
			emit(record{Kind: "stats", ID: opt.ID, Test: name, Incon: 1, IncMsgs: []string{string(inc)}})
		} else if err != nil {
			emit(record{Kind: "violation", ID: opt.ID, Test: name, Msg: err.Error(), Case: r.Case})
		} else {
			emit(record{Kind: "stats", ID: opt.ID, Test: name, Eval: 1})
		}
		emit(record{Kind: "end", ID: opt.ID, Test: name})
		if err != nil {
			t.Fatal(err)
		}
		return
	}

	shards := envInt("VERIF_SHARDS", 1)
	shard := envInt("VERIF_SHARD", 0)
	n := opt.Quick
	if Tier() == "thorough" {
		n = opt.Thorough
		if n == 0 {
			n = opt.Quick * 10
		}
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n) * v)
		}
	}
	q := n / shards
	if shard < n%shards {
		q++
	}
	if q == 0 {
		return
	}
	budget := time.Duration(envInt("VERIF_BUDGET", 600)) * time.Second
	flag.Set("rapid.checks", strconv.Itoa(q))

	st := record{Kind: "stats", ID: opt.ID, Test: name, Classes: map[string]int{}}
	hashes := map[string]bool{}
	var lastCase []byte
	var lastMsg string
	failed := false
	emit(record{Kind: "begin", ID: opt.ID, Test: name})
	defer func() {
		for h := range hashes {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Strings(st.Hashes)
		emit(st)
		if failed {
			emit(record{Kind: "violation", ID: opt.ID, Test: name, Msg: lastMsg, Case: lastCase})
		}
		emit(record{Kind: "end", ID: opt.ID, Test: name})
	}()
	cur := os.Getenv("VERIF_CUR")
	var curF *os.File
	if cur != "" && !opt.Isolated {
		curF, _ = os.Create(cur)
		defer os.Remove(cur)
		defer curF.Close()
	}
	// a violation found by any shard ends the search
	stop := os.Getenv("VERIF_STOP")
	stopped := func() bool {
		if stop == "" {
			return false
		}
		_, err := os.Stat(stop)
		return err == nil
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := gen(rt)
		if !failed && (time.Since(start) > budget || stopped()) {
			st.Skipped++
			return
		}
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if curF != nil {
			hd, _ := json.Marshal(record{Kind: "violation", ID: opt.ID, Test: name, Case: raw, Msg: "process died while executing this case"})
			curF.Truncate(0)
			curF.WriteAt(hd, 0)
		}
		var o Obs
		if !opt.Isolated {
			setWatch(&watched{raw: raw, id: opt.ID, test: name, cpu: cpuTime()})
		}
		err = exec1(c, raw, &o)
		setWatch(nil)
		if inc, ok := err.(inconclusive); ok {
			st.Incon++
			if len(st.IncMsgs) < 3 {
				st.IncMsgs = append(st.IncMsgs, string(inc))
			}
			return
		}
		if !failed {
			st.Eval++
			for k, v := range o.Classes {
				st.Classes[k] += v
			}
			if o.NonTrivial {
				h := sha256.Sum256(append([]byte(name), raw...))
				hashes[fmt.Sprintf("%x", h[:6])] = true
				if len(st.Samples) < 2 && len(raw) < 6000 {
					st.Samples = append(st.Samples, map[string]interface{}{"test": name, "case": json.RawMessage(raw), "notes": o.Notes})
				}
			}
		}
		if err != nil {
			if !failed && stop != "" {
				os.WriteFile(stop, nil, 0644)
			}
			failed = true
			lastCase = raw
			lastMsg = err.Error()
			rt.Fatalf("%s", firstLine(err.Error()))
		}
	})
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func crashSummary(stderr []byte) string {
	s := string(stderr)
	for _, mark := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, mark); i >= 0 {
			s = s[i:]
			if len(s) > 1800 {
				s = s[:1800]
			}
			return s
		}
	}
	return tail(stderr, 800)
}

func runChild(name string, opt Opt, raw []byte, o *Obs) error {
	dir, err := os.MkdirTemp("", "vfcase")
	if err != nil {
		return inconclusive("mkdtemp: " + err.Error())
	}
	defer os.RemoveAll(dir)
	cf := filepath.Join(dir, "case.json")
	of := filepath.Join(dir, "out.json")
	if err := os.WriteFile(cf, raw, 0644); err != nil {
		return inconclusive(err.Error())
	}
	exe, err := os.Executable()
	if err != nil {
		return inconclusive(err.Error())
	}
	cmd := exec.Command(exe, "-test.run=^"+name+"$", "-test.timeout=0")
	cmd.Dir = dir
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "VERIF_OUT=") || strings.HasPrefix(e, "VERIF_REPLAY=") || strings.HasPrefix(e, "VERIF_CUR=") {
			continue
		}
		env = append(env, e)
	}
	cmd.Env = append(env, childCase+"="+cf, childOut+"="+of)
	racing := os.Getenv("VERIF_RACE") != ""
	if racing {
		cmd.Env = append(cmd.Env, "GORACE=atexit_sleep_ms=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	}
	var eb bytes.Buffer
	cmd.Stdout = &eb
	cmd.Stderr = &eb
	to := opt.Timeout
	if to == 0 {
		to = 400 * time.Second
	}
	if err := cmd.Start(); err != nil {
		return inconclusive("start child: " + err.Error())
	}
	timer := time.AfterFunc(to, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	timedOut := !timer.Stop()
	b, rerr := os.ReadFile(of)
	if rerr == nil && len(b) > 0 {
		var res childResult
		if err := json.Unmarshal(b, &res); err != nil {
			return inconclusive("child output: " + err.Error())
		}
		*o = res.Obs
		if res.Obs.Inconclusive != "" {
			return inconclusive(res.Obs.Inconclusive)
		}
		if res.Err != "" {
			return fmt.Errorf("%s", res.Err)
		}
		if racing {
			return raceCheck(dir, o)
		}
		return nil
	}
	if timedOut && racing {
		return inconclusive("child ran out of its wall time")
	}
	if timedOut {
		if ru, ok := cmd.ProcessState.SysUsage().(*syscall.Rusage); ok {
			if cpu := time.Duration(ru.Utime.Nano() + ru.Stime.Nano()); cpu > maxCaseCPU && cpu > opt.MaxCPU {
				return fmt.Errorf("the case had not ended after %s of CPU time", cpu.Round(time.Second))
			}
		}
		return inconclusive("child ran out of its wall time")
	}
	if ee, ok := werr.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM) {
			return inconclusive("child killed: " + ws.Signal().String())
		}
		if bytes.Contains(eb.Bytes(), []byte("cannot allocate memory")) || bytes.Contains(eb.Bytes(), []byte("out of memory")) {
			return inconclusive("child out of memory")
		}
	}
	if werr == nil {
		return inconclusive("child left no result: " + tail(eb.Bytes(), 300))
	}
	return fmt.Errorf("a node's process died (%v): %s", werr, crashSummary(eb.Bytes()))
}

// A case that runs in this process and burns this much CPU time does not end.
const maxCaseCPU = 150 * time.Second

type watched struct {
	raw      []byte
	id, test string
	cpu      time.Duration
}

var (
	watchMu   sync.Mutex
	watch     *watched
	watchOnce sync.Once
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func setWatch(w *watched) {
	watchMu.Lock()
	watch = w
	watchMu.Unlock()
	watchOnce.Do(func() {
		go func() {
			for {
				time.Sleep(time.Second)
				watchMu.Lock()
				if w := watch; w != nil && cpuTime()-w.cpu > maxCaseCPU {
					emit(record{Kind: "violation", ID: w.id, Test: w.test, Case: w.raw,
						Msg: fmt.Sprintf("the case had not ended after %s of CPU time", maxCaseCPU)})
					emit(record{Kind: "stats", ID: w.id, Test: w.test, Eval: 1})
					emit(record{Kind: "end", ID: w.id, Test: w.test})
					os.Exit(1)
				}
				watchMu.Unlock()
			}
		}()
	})
}

// Known runs the recorded inputs of the open findings of a property and
// reports the ones that still fail.
func Known(t *testing.T, id string, holds func(raw []byte) (bool, error)) {
	if os.Getenv("VERIF_REPLAY") != "" {
		return
	}
	name := t.Name()
	emit(record{Kind: "begin", ID: id, Test: name})
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_HOME"), "known_findings.jsonl"))
	if err != nil && !os.IsNotExist(err) {
		t.Fatal(err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		var k struct {
			Property, Status, What string
			Case                   json.RawMessage
		}
		if json.Unmarshal([]byte(line), &k) != nil || k.Property != id || k.Status != "open" {
			continue
		}
		ok, err := holds(k.Case)
		if err != nil {
			t.Fatal(err)
		}
		emit(record{Kind: "stats", ID: id, Test: name, Eval: 1})
		if !ok {
			emit(record{Kind: "known", ID: id, Test: name, Msg: k.What, Case: k.Case})
		}
	}
	emit(record{Kind: "end", ID: id, Test: name})
}
