package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// replayer builds the real code together with the harnesses and runs recorded cases natively.
type replayer struct {
	repo, verif string
	main        bool
	scratch     string
	mu          sync.Mutex
	bins        map[string]string // variant -> binary
	errs        map[string]error
	n           int
}

type repIn struct {
	Kind string `json:"kind"`
	Val  int64  `json:"val"`
}

type repCase struct {
	Harness string         `json:"harness"`
	Inputs  []repIn        `json:"inputs"`
	Params  map[string]int `json:"params"`
	Repeat  int            `json:"repeat"`
	Sched   bool           `json:"sched"`
}

type repResult struct {
	Case     int      `json:"case"`
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic"`
	Assume   bool     `json:"assume"`
	Mismatch string   `json:"mismatch"`
	Hang     bool     `json:"hang"`
	Deadlock bool     `json:"deadlock"`
	Frozen   []string `json:"frozen"`
	Obs      []string `json:"obs"`
	Reach    []string `json:"reach"`
	Done     bool     `json:"done"`
	Race     string   `json:"race,omitempty"`
	missing  bool
}

func newReplayer(repo, verif string, isMain bool, scratch string) *replayer {
	return &replayer{repo: repo, verif: verif, main: isMain, scratch: scratch, bins: map[string]string{}, errs: map[string]error{}}
}

func (r *replayer) binary(race, shim bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	key := fmt.Sprint(race, shim)
	if b, ok := r.bins[key]; ok {
		return b, nil
	}
	if e, ok := r.errs[key]; ok {
		return "", e
	}
	b, err := r.build(race, shim, key)
	if err != nil {
		r.errs[key] = err
		return "", err
	}
	r.bins[key] = b
	return b, nil
}

func (r *replayer) build(race, shim bool, key string) (string, error) {
	dir := filepath.Join(r.scratch, "b_"+key)
	if err := os.MkdirAll(dir, 0700); err != nil {
		return "", err
	}
	rep := map[string]string{}
	n := 0
	add := func(target string, content []byte) error {
		n++
		p := filepath.Join(dir, strconv.Itoa(n)+"_"+filepath.Base(target))
		rep[target] = p
		return ioutil.WriteFile(p, content, 0600)
	}
	sub, pkg := "", "xbnf"
	if r.main {
		sub, pkg = "main", "main"
	}
	lib, err := ioutil.ReadFile(filepath.Join(r.verif, "native", "zz_verif_lib_native.go"))
	if err != nil {
		return "", err
	}
	ls := strings.Replace(string(lib), "package xbnf", "package "+pkg, 1)
	ls = strings.Replace(ls, "MODPATH", modPath, 1)
	if err := add(filepath.Join(r.repo, sub, "zz_verif_lib_native.go"), []byte(ls)); err != nil {
		return "", err
	}
	vs, err := ioutil.ReadFile(filepath.Join(r.verif, "native", "zzvsync.go"))
	if err != nil {
		return "", err
	}
	if err := add(filepath.Join(r.repo, "zzvsync", "zzvsync.go"), vs); err != nil {
		return "", err
	}
	var names []string
	files, _ := filepath.Glob(filepath.Join(r.verif, "harness", sub, "zz_verif_*.go"))
	sort.Strings(files)
	for _, f := range files {
		if filepath.Base(f) == "zz_verif_lib_sym.go" {
			continue
		}
		b, err := ioutil.ReadFile(f)
		if err != nil {
			return "", err
		}
		for _, m := range reFunc.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
		if err := add(filepath.Join(r.repo, sub, filepath.Base(f)), b); err != nil {
			return "", err
		}
	}
	reg := "package " + pkg + "\n\nvar vRegistry map[string]func()\n\nfunc init() {\n\tvRegistry = map[string]func(){\n"
	for _, n := range names {
		reg += fmt.Sprintf("\t\t%q: %s,\n", n, n)
	}
	reg += "\t}\n"
	if r.main {
		reg = strings.Replace(reg, "package main\n", "package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n)\n", 1)
		reg += "\tif a := os.Getenv(\"VERIF_CHILD\"); a != \"\" {\n\t\tvar args []string\n\t\tjson.Unmarshal([]byte(a), &args)\n\t\tos.Args = append([]string{\"xbnf\"}, args...)\n\t\treturn\n\t}\n"
		reg += "\tif os.Getenv(\"VERIF_REPLAY\") != \"\" {\n\t\tvReplayMain()\n\t\tos.Exit(0)\n\t}\n"
	}
	reg += "}\n"
	if !r.main {
		reg += "\n// VReplayMain runs the recorded cases.\nfunc VReplayMain() { vReplayMain() }\n"
		mainSrc := "package main\n\nimport x \"" + modPath + "\"\n\nfunc main() { x.VReplayMain() }\n"
		if err := add(filepath.Join(r.repo, "zzvmain", "main.go"), []byte(mainSrc)); err != nil {
			return "", err
		}
	}
	// initialised last: the file name sorts behind all others
	if err := add(filepath.Join(r.repo, sub, "zz_verif_zreg.go"), []byte(reg)); err != nil {
		return "", err
	}
	if shim {
		for _, d := range []string{r.repo, filepath.Join(r.repo, "main")} {
			src, _ := filepath.Glob(filepath.Join(d, "*.go"))
			for _, f := range src {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				b, err := ioutil.ReadFile(f)
				if err != nil {
					return "", err
				}
				nb, changed := shimSync(b)
				if changed {
					if err := add(f, nb); err != nil {
						return "", err
					}
				}
			}
		}
	}
	ovf := filepath.Join(dir, "overlay.json")
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	if err := ioutil.WriteFile(ovf, js, 0600); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay.bin")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	if r.main {
		args = append(args, "./main")
	} else {
		args = append(args, "./zzvmain")
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build failed: %v: %s", err, firstLines(string(out), 6))
	}
	return bin, nil
}

// shimSync replaces the import of package sync.
func shimSync(src []byte) ([]byte, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ImportsOnly)
	if err != nil {
		return src, false
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			p := fs.Position(im.Path.Pos()).Offset
			new := strconv.Quote(modPath + "/zzvsync")
			if im.Name == nil {
				new = "sync " + new
			}
			return append(append(append([]byte(nil), src[:p]...), new...), src[p+len(im.Path.Value):]...), true
		}
	}
	return src, false
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// run executes the cases; a case that kills the process is recorded as a panic.
func (r *replayer) run(cases []repCase, race, shim bool, limit time.Duration) ([]repResult, error) {
	bin, err := r.binary(race, shim)
	if err != nil {
		return nil, err
	}
	r.mu.Lock()
	r.n++
	id := r.n
	r.mu.Unlock()
	dir := filepath.Join(r.scratch, "r"+strconv.Itoa(id))
	if err := os.MkdirAll(dir, 0700); err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "cases.json")
	js, _ := json.Marshal(cases)
	if err := ioutil.WriteFile(in, js, 0600); err != nil {
		return nil, err
	}
	out := make([]repResult, len(cases))
	for i := range out {
		out[i] = repResult{Case: i, missing: true}
	}
	first := 0
	for first < len(cases) {
		resf := filepath.Join(dir, "res"+strconv.Itoa(first))
		cmd := exec.Command(bin)
		cmd.Dir = dir
		cmd.Env = append(goEnv(), "VERIF_TREE="+r.repo, "VERIF_REPLAY="+in, "VERIF_RESULT="+resf, "VERIF_FIRST="+strconv.Itoa(first),
			"VERIF_SCRATCH="+dir, "VERIF_LIMIT_MS="+strconv.Itoa(int(limit/time.Millisecond)), "GORACE=halt_on_error=1 exitcode=66")
		var se bytes.Buffer
		cmd.Stderr = &se
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		killed := false
		max := time.Duration(len(cases)-first)*limit + 10*time.Second
		if max > 120*time.Second {
			max = 120 * time.Second
		}
		select {
		case <-done:
		case <-time.After(max):
			cmd.Process.Kill()
			<-done
			killed = true
		}
		last := first - 1
		if f, err := os.Open(resf); err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 64<<20)
			for sc.Scan() {
				var rr repResult
				if json.Unmarshal(sc.Bytes(), &rr) == nil && rr.Case >= 0 && rr.Case < len(out) {
					out[rr.Case] = rr
					last = rr.Case
				}
			}
			f.Close()
		}
		if last >= len(cases)-1 {
			break
		}
		if last >= first && out[last].Hang {
			first = last + 1
			continue
		}
		bad := last + 1
		out[bad] = repResult{Case: bad}
		switch {
		case killed:
			out[bad].Hang = true
		case strings.Contains(se.String(), "DATA RACE"):
			out[bad].Race = firstLines(se.String(), 40)
		default:
			out[bad].Panic = "process ended: " + firstLines(se.String(), 4)
			if strings.Contains(se.String(), "stack overflow") || strings.Contains(se.String(), "stack exceeds") {
				out[bad].Hang = true
			}
		}
		first = bad + 1
	}
	return out, nil
}

func (c *candidate) hasKind(k string) bool {
	for _, in := range c.inputs {
		if in.kind == k {
			return true
		}
	}
	return false
}

func toCase(h *Harness, inputs []inputRec) repCase {
	c := repCase{Harness: h.name, Params: h.params}
	for _, in := range inputs {
		c.Inputs = append(c.Inputs, repIn{in.kind, in.val})
	}
	return c
}

// confirm replays a candidate against the real code.
func (r *replayer) confirm(c *candidate) (bool, repCase, repResult, error) {
	rc := toCase(c.harness, c.inputs)
	race, shim := false, false
	limit := 6 * time.Second
	switch {
	case c.kind == "race":
		race = true
		rc.Repeat = 300
	case c.hasKind("sched"):
		shim = true
		rc.Sched = true
	case c.hasKind("maporder"):
		rc.Repeat = 3000
	}
	res, err := r.run([]repCase{rc}, race, shim, limit)
	if err != nil {
		return false, rc, repResult{}, err
	}
	rr := res[0]
	ok := false
	switch {
	case rr.Mismatch == "more inputs asked than recorded" && c.kind != "race":
		// the inputs were recorded up to the failure; the run went on behind it
		ok = len(rr.Failed) > 0 || len(rr.Frozen) > 0
	case rr.Mismatch == "":
		switch c.kind {
		case "race":
			ok = rr.Race != ""
		case "frozen":
			ok = len(rr.Frozen) > 0 || len(rr.Failed) > 0
		default:
			ok = len(rr.Failed) > 0 || rr.Panic != "" || rr.Hang || rr.Deadlock || len(rr.Frozen) > 0
		}
	}
	return ok, rc, rr, nil
}
