//go:build goexperiment.synctest

package idps

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// TestP26Child is the process that is killed. It runs operations on the store
// and reports what each of them returned.
func TestP26Child(t *testing.T) {
	spec := os.Getenv("VERIF_CRASH_CHILD")
	if spec == "" {
		t.Skip()
	}
	var c struct {
		Dir   string
		Seed  int64
		Ops   int
		Model *model
	}
	b, err := os.ReadFile(spec)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		t.Fatal(err)
	}
	out := os.NewFile(3, "events")
	m := c.Model
	emit := func(e event) {
		m.apply(e)
		b, _ := json.Marshal(e)
		out.Write(append(b, '\n'))
	}
	s, err := openSys(vp.NewStore(t, c.Dir))
	if err != nil {
		emit(event{Op: "start", Phase: "err", Text: err.Error()})
		return
	}
	emit(s.started())
	rnd := mrand.New(mrand.NewSource(c.Seed))
	for range c.Ops {
		s.step(rnd, m, "", emit)
	}
	emit(event{Op: "done", Phase: "ok"})
}

// straceOK says whether processes can be killed at a chosen system call.
func straceOK() bool {
	out, err := exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:signal=SIGKILL:when=1", "/bin/true").CombinedOutput()
	ee, ok := err.(*exec.ExitError)
	return ok && ee.ProcessState.String() == "signal: killed" && len(out) == 0
}

func TestP26(t *testing.T) {
	if os.Getenv("VERIF_CRASH_CHILD") != "" {
		t.Skip()
	}
	r := vh.New(t, "killed processes")
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	trace := straceOK()
	if !trace {
		t.Log("no strace: kills happen at random moments only")
	}
	dir := vh.Work(t)
	run := func(i int) {
		rnd := vh.Rand("p26", i)
		base := filepath.Join(dir, fmt.Sprint(i))
		d := filepath.Join(base, "store")
		os.MkdirAll(base, 0o700)
		m := newModel()
		var log []string
		fail := func(key, f string, a ...any) {
			r.Violate(key, map[string]any{"case": i, "history": log[max(0, len(log)-60):]}, f, a...)
		}
		for round := range vh.N(6, 8) {
			spec := filepath.Join(base, fmt.Sprintf("spec%d.json", round))
			b, _ := json.Marshal(map[string]any{"Dir": d, "Seed": rnd.Int63(), "Ops": 40, "Model": m})
			os.WriteFile(spec, b, 0o600)
			args := []string{self, "-test.run=^TestP26Child$"}
			killAfter, delay := -1, time.Duration(0)
			how := ""
			if trace && rnd.Intn(3) > 0 {
				// Kill at the nth call of one kind.
				sc := []string{"renameat", "renameat", "openat", "write", "unlinkat", "close", "fsync", "linkat,mkdirat"}[rnd.Intn(8)]
				n := 1 + rnd.Intn(60)
				switch {
				case sc == "openat" || sc == "close":
					n = 1 + rnd.Intn(600)
				case sc == "write":
					n = 1 + rnd.Intn(2500)
				case sc == "unlinkat" && rnd.Intn(2) == 0, sc == "renameat" && rnd.Intn(2) == 0, sc == "linkat,mkdirat":
					n = 1 + rnd.Intn(6)
				}
				// The thread's calls are counted separately, so the nth call may
				// be a later one of the process.
				how = fmt.Sprintf("at call %d of %s", n, sc)
				args = append([]string{"strace", "-f", "-o", "/dev/null", "-e", "trace=" + sc, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", sc, n)}, args...)
			} else {
				killAfter, delay = rnd.Intn(60), time.Duration(rnd.Intn(4000))*time.Microsecond
				how = fmt.Sprintf("%v after event %d", delay, killAfter)
			}
			cmd := exec.Command(args[0], args[1:]...)
			cmd.Env = append(os.Environ(), "VERIF_CRASH_CHILD="+spec)
			if len(args) > 2 {
				// a single OS thread runs most of the code
				cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
			}
			pr, pw, err := os.Pipe()
			if err != nil {
				t.Fatal(err)
			}
			cmd.ExtraFiles = []*os.File{pw}
			var outb strings.Builder
			cmd.Stdout, cmd.Stderr = &outb, &outb
			if err := cmd.Start(); err != nil {
				t.Fatal(err)
			}
			pw.Close()
			log = append(log, "start, killed "+how)
			rd := bufio.NewReader(pr)
			n, done := 0, false
			last := "nothing"
			for {
				line, err := rd.ReadBytes('\n')
				if err != nil {
					if err != io.EOF {
						t.Log(err)
					}
					break
				}
				var e event
				if err := json.Unmarshal(line, &e); err != nil {
					fail("events", "%v", err)
					break
				}
				if e.Op == "done" {
					done = true
					break
				}
				m.apply(e)
				log = append(log, e.Op+" "+e.Phase)
				last = e.Op + " " + e.Phase
				if e.Phase == "err" {
					fail("refused", "%s fails: %s", e.Op, e.Text)
				}
				if n++; n == killAfter {
					time.Sleep(delay)
					cmd.Process.Kill()
				}
			}
			cmd.Process.Kill()
			pr.Close()
			cmd.Wait()
			if !done && strings.Contains(outb.String(), "panic:") {
				fail("panic", "the process panicked: %.500s", outb.String())
			}
			if done {
				r.Count("survived", 1)
			} else {
				r.Count("killed", 1)
				r.Count("killed_after_"+strings.ReplaceAll(last, " ", "_"), 1)
				if strings.HasSuffix(last, "begin") {
					r.Count("killed_during_op", 1)
				}
				if n == 0 {
					r.Count("killed_during_start", 1)
				}
			}
			log = append(log, fmt.Sprintf("dead after %d events", n))
			m.crashed()
			// Locks of dead processes are broken when they are old.
			locks, _ := filepath.Glob(filepath.Join(d, "*.lock"))
			for _, l := range locks {
				old := time.Now().Add(-time.Hour)
				os.Chtimes(l, old, old)
				r.Count("stale_locks", 1)
			}
			if tmps, _ := filepath.Glob(filepath.Join(d, "*.tmp*")); len(tmps) > 0 {
				r.Count("interrupted_writes", 1)
			}
			s, err := openSys(vp.NewStore(t, d))
			if err != nil {
				fail("start", "the state cannot be opened after the process was killed %s: %v", how, err)
				return
			}
			s.audit(r, m, "after a kill "+how, fail)
			r.Eval(true, how, last, i)
			// The service goes on.
			var ev event
			for _, op := range []string{"issue", "crl", "token", "addkey"} {
				s.step(rnd, m, op, func(e event) { m.apply(e); ev = e })
				log = append(log, ev.Op+" "+ev.Phase)
				if ev.Phase == "err" {
					fail("refused", "%s fails after the process was killed %s: %s", op, how, ev.Text)
				}
			}
			if rnd.Intn(3) == 0 {
				s.audit(r, m, "later", fail)
			}
		}
		if i < 2 {
			r.Sample(log[:min(len(log), 20)])
		}
		os.RemoveAll(base)
	}
	jobs := make(chan int)
	fin := make(chan bool)
	for range 6 {
		go func() {
			for i := range jobs {
				if r.NumViolations() <= 6 {
					run(i)
				}
			}
			fin <- true
		}()
	}
	for i := range vh.N(36, 300) {
		jobs <- i
	}
	close(jobs)
	for range 6 {
		<-fin
	}
	r.NeedAtLeast("killed", 20)
	r.NeedAtLeast("killed_during_op", 10)
}
