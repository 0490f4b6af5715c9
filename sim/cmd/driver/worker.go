package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verifsim/spec"
)

// Result mirrors what workers answer.
type Result = spec.Result

type request = spec.Request

type answer struct {
	spec.Answer
	fatal string
}

// worker is a process that executes runs.
type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *tail
	dead string
	race bool
}

// tail keeps the beginning of what is written.
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}

	return len(p), nil
}

func newWorker(bin string, p spec.Prop) *worker {
	w := &worker{cmd: exec.Command(bin, "serve"), err: &tail{}, race: p.Race}
	w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3", "GOTRACEBACK=all")
	w.cmd.Stderr = w.err

	w.in, _ = w.cmd.StdinPipe()
	o, _ := w.cmd.StdoutPipe()
	w.out = bufio.NewReaderSize(o, 1<<20)

	if err := w.cmd.Start(); err != nil {
		fatal("%v", err)
	}

	return w
}

const patience = 120 * time.Second

func (w *worker) ask(q request) answer {
	if w.dead != "" {
		return answer{fatal: w.dead}
	}

	b, _ := json.Marshal(q)

	type reply struct {
		l   []byte
		err error
	}

	ch := make(chan reply, 1)

	go func() {
		if _, err := w.in.Write(append(b, '\n')); err != nil {
			ch <- reply{err: err}

			return
		}

		l, err := w.out.ReadBytes('\n')
		ch <- reply{l, err}
	}()

	select {
	case r := <-ch:
		if r.err == nil {
			var a answer
			if err := json.Unmarshal(r.l, &a.Answer); err == nil {
				return a
			}
		}

		w.cmd.Wait()
		w.dead = "process died: " + reason(w.err.b.String())
	case <-time.After(patience):
		w.cmd.Process.Kill()
		w.cmd.Wait()
		w.dead = fmt.Sprintf("no progress in %v", patience)
	}

	return answer{fatal: w.dead}
}

// reason is what a dying process says first, without addresses.
func reason(s string) string {
	var l []string

	for _, x := range strings.Split(s, "\n") {
		x = strings.TrimSpace(x)
		if strings.HasPrefix(x, "fatal error:") || strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "runtime: goroutine stack exceeds") {
			l = append(l, x)
		}

		if strings.HasPrefix(x, "github.com/swaggest/") && len(l) > 0 && len(l) < 6 {
			if i := strings.LastIndex(x, "("); i > 0 {
				x = x[:i]
			}

			l = append(l, "at "+x)
		}
	}

	if l == nil {
		return "for an unknown reason"
	}

	return strings.Join(l, "; ")
}

// fatalAnswer makes a violation of a run that kills the process.
func (w *worker) fatalAnswer(id string, seed uint64, idx int, why string) (a answer) {
	c := exec.Command(w.cmd.Path, "show", id, fmt.Sprint(seed), fmt.Sprint(idx))

	b, err := c.Output()
	if err != nil {
		fatal("run %d of seed %d cannot be generated: %v", idx, seed, err)
	}

	var h struct{ Kind, Ver string }

	json.Unmarshal(b, &h)

	a.Plan = b
	a.Kind, a.Ver = h.Kind, h.Ver
	a.Result.Class = "fatal"
	a.Result.Violation = why

	if strings.HasPrefix(why, "no progress") {
		a.Result.Class = "hang"
	}

	return a
}

func (w *worker) coverage() []uint32 {
	return w.ask(request{Coverage: true}).Sites
}

func (w *worker) close() {
	w.in.Close()
	w.cmd.Wait()
}

// siteNames reads the table of yield points.
func siteNames() []string {
	b, err := os.ReadFile(filepath.Join(build, "o", "sites.txt"))
	if err != nil {
		return nil
	}

	return strings.Split(strings.TrimSpace(string(b)), "\n")
}
