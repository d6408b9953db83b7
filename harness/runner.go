package main

// Builds the compiler from /repo's working tree and runs it and the programs it produces, under resource limits.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Env struct {
	Repo    string
	Verif   string
	Scratch string
	Clarac  string
	Preload string
	LexDrv  string
	GccDir  string
	Workers int
	ws      []*Worker
	tier    string
	seed    int64
}

type Worker struct {
	env  *Env
	id   int
	dir  string
	n    int
	data map[string]interface{}
}

func (e *Env) worker(i int) *Worker { return e.ws[i] }

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "GOOS", "GOARCH", "PATH", "HOME", "TMPDIR":
			continue
		}
		env = append(env, kv)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "HOME="+home,
		"PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:"+os.Getenv("PATH"))
}

func newEnv(verif string) (*Env, error) {
	e := &Env{Repo: "/repo", Verif: verif}
	if r := os.Getenv("VERIF_REPO"); r != "" {
		e.Repo = r
	}
	var err error
	if e.Scratch, err = os.MkdirTemp("", "claraverif"); err != nil {
		return nil, err
	}
	e.Workers = runtime.NumCPU()
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && n > 0 {
		e.Workers = n
	}
	if e.Workers > 8 {
		e.Workers = 8
	}
	if e.Workers < 1 {
		e.Workers = 1
	}
	// Compiler
	e.Clarac = filepath.Join(e.Scratch, "clarac")
	cmd := exec.Command("go", "build", "-o", e.Clarac, ".")
	cmd.Dir = e.Repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building clarac: %v\n%s", err, out)
	}
	// Checked allocator
	e.Preload = filepath.Join(e.Scratch, "heap.so")
	if out, err := exec.Command("gcc", "-O2", "-fPIC", "-shared", "-o", e.Preload, filepath.Join(verif, "harness", "c", "heap.c")).CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building heap.so: %v\n%s", err, out)
	}
	// gcc front end which caches objects of the runtime's C files
	e.GccDir = filepath.Join(e.Scratch, "gcc")
	os.MkdirAll(filepath.Join(e.GccDir, "cache"), 0755)
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if err := os.Symlink(self, filepath.Join(e.GccDir, "gcc")); err != nil {
		return nil, err
	}
	for i := 0; i < e.Workers; i++ {
		w := &Worker{env: e, id: i, dir: filepath.Join(e.Scratch, fmt.Sprintf("w%d", i)), data: map[string]interface{}{}}
		if err := os.MkdirAll(filepath.Join(w.dir, "tmp"), 0755); err != nil {
			return nil, err
		}
		e.ws = append(e.ws, w)
	}
	return e, nil
}

func (e *Env) close() { os.RemoveAll(e.Scratch) }

// gcc stand-in (argv[0] == gcc): replaces .c inputs by cached objects compiled with the same flags, otherwise unchanged
func gccShim(args []string) int {
	dir := filepath.Dir(os.Args[0])
	real := "/usr/bin/gcc"
	pass := func(a []string) int {
		c := exec.Command(real, a...)
		c.Stdin, c.Stdout, c.Stderr = os.Stdin, os.Stdout, os.Stderr
		if err := c.Run(); err != nil {
			var ee *exec.ExitError
			if errors.As(err, &ee) {
				return ee.ExitCode()
			}
			return 127
		}
		return 0
	}
	var flags, cs []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-o":
			i++
		case strings.HasSuffix(a, ".c"):
			cs = append(cs, a)
		case strings.HasPrefix(a, "-"):
			flags = append(flags, a)
		}
	}
	obj := map[string]string{}
	for _, c := range cs {
		o := filepath.Join(dir, "cache", fmt.Sprintf("%016x.o", hash64(c, flags)))
		if _, err := os.Stat(o); err != nil {
			tmp := fmt.Sprintf("%s.%d", o, os.Getpid())
			if exec.Command(real, append(append([]string{}, flags...), "-c", "-o", tmp, c)...).Run() != nil {
				return pass(args)
			}
			os.Rename(tmp, o)
		}
		obj[c] = o
	}
	var out []string
	for _, a := range args {
		if o, ok := obj[a]; ok {
			a = o
		}
		out = append(out, a)
	}
	return pass(out)
}

// ---------------------------------------------------------------------------------------------------------------------

type Exec struct {
	Out    string
	Err    string
	Code   int    // exit status, -1 if killed
	Signal string // non-empty when killed by a signal
	CPU    bool   // killed because of the CPU limit
	Wall   bool   // killed because of the wall clock limit (inconclusive)
	Trunc  bool
}

type capWriter struct {
	b     bytes.Buffer
	max   int
	trunc bool
}

func (c *capWriter) Write(p []byte) (int, error) {
	n := len(p)
	if c.b.Len()+n > c.max {
		p = p[:c.max-c.b.Len()]
		c.trunc = true
	}
	c.b.Write(p)
	return n, nil
}

type Limits struct {
	CPU   int // seconds
	Wall  time.Duration
	AS    int  // KB of address space, 0 = none
	Exact bool // the environment must arrive unchanged, so no shell
	Out   int
}

func runLimited(lim Limits, dir string, env []string, stdin io.Reader, name string, args ...string) Exec {
	ctx, cancel := context.WithTimeout(context.Background(), lim.Wall)
	defer cancel()
	sh := fmt.Sprintf("ulimit -c 0; ulimit -S -t %d; ulimit -H -t %d; ", lim.CPU, lim.CPU+1)
	if lim.AS > 0 {
		sh += fmt.Sprintf("ulimit -v %d; ", lim.AS)
	}
	sh += `exec "$@"`
	c := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", sh, "sh", name}, args...)...)
	if lim.Exact {
		c = exec.CommandContext(ctx, "/usr/bin/prlimit", append([]string{"--core=0", fmt.Sprintf("--cpu=%d:%d", lim.CPU, lim.CPU+1), name}, args...)...)
	}
	c.Dir = dir
	c.Env = env
	c.Stdin = stdin
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 2 * time.Second
	if lim.Out == 0 {
		lim.Out = 1 << 20
	}
	so, se := &capWriter{max: lim.Out}, &capWriter{max: 1 << 18}
	c.Stdout, c.Stderr = so, se
	err := c.Run()
	r := Exec{Out: so.b.String(), Err: se.b.String(), Trunc: so.trunc}
	if ctx.Err() != nil {
		r.Wall = true
		r.Code = -1
		return r
	}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				r.Code = -1
				r.Signal = ws.Signal().String()
				if ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL {
					r.CPU = ws.Signal() == syscall.SIGXCPU || c.ProcessState.UserTime()+c.ProcessState.SystemTime() > time.Duration(lim.CPU)*time.Second*9/10
				}
			} else {
				r.Code = ee.ExitCode()
			}
		} else {
			r.Code = -2
			r.Err += err.Error()
		}
	}
	return r
}

// Compiles source text. Returns the compiler run and the path of the executable.
func (w *Worker) Compile(src string) (Exec, string) { return w.CompileNamed("prog", src) }

func (w *Worker) CompileNamed(name, src string) (Exec, string) {
	dir := filepath.Join(w.dir, "c")
	os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "out"), 0755)
	prog := filepath.Join(dir, name+".clara")
	bin := filepath.Join(dir, "out", name)
	os.WriteFile(prog, []byte(src), 0644)
	env := []string{"TMPDIR=" + dir, "PATH=" + w.env.GccDir + ":/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C", "GOMAXPROCS=2"}
	x := runLimited(Limits{CPU: 20, Wall: 120 * time.Second}, dir, env, nil, w.env.Clarac, "-install", filepath.Join(w.env.Repo, "install"), "-prog", prog, "-out", filepath.Join(dir, "out"))
	return x, bin
}

type Heap struct {
	Ok                                bool
	Allocs, Frees, Live, Peak, PeakSz int
	Errors                            string
}

// Runs an executable with the checked allocator.
func (w *Worker) Run(bin string, args []string, env []string) (Exec, Heap) {
	return w.RunIn(w.dir, nil, w.heapEnv(env), bin, args)
}

func (w *Worker) heapEnv(env []string) []string {
	return append([]string{"LD_PRELOAD=" + w.env.Preload, "HEAPSTAT=" + filepath.Join(w.dir, "heapstat")}, env...)
}

func (w *Worker) RunIn(dir string, stdin io.Reader, e []string, bin string, args []string) (Exec, Heap) {
	stat := filepath.Join(w.dir, "heapstat")
	os.Remove(stat)
	x := runLimited(Limits{CPU: 10, Wall: 100 * time.Second, Exact: true}, dir, e, stdin, bin, args...)
	var h Heap
	if b, err := os.ReadFile(stat); err == nil {
		h.Ok = true
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.SplitN(l, " ", 2)
			if len(f) < 2 {
				continue
			}
			n, _ := strconv.Atoi(f[1])
			switch f[0] {
			case "allocs":
				h.Allocs = n
			case "frees":
				h.Frees = n
			case "live":
				h.Live = n
			case "peak":
				h.Peak = n
			case "error":
				h.Errors += f[1] + "; "
			}
		}
	}
	return x, h
}

func compileProblem(x Exec) string {
	switch {
	case x.CPU:
		return "the compiler did not terminate (CPU limit)"
	case x.Code == 2 || strings.Contains(x.Err, "goroutine ") || x.Signal != "":
		return "the compiler crashed: " + clip(x.Err+x.Signal, 1500)
	case x.Code == 1:
		return "the compiler rejected a valid program:\n" + clip(x.Out+x.Err, 1500)
	case x.Code != 0:
		return fmt.Sprintf("the compiler exited with status %d: %s", x.Code, clip(x.Out+x.Err, 1500))
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
