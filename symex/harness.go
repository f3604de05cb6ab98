package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// harnessDecl is a harness function with the annotations in front of it.
type harnessDecl struct {
	Name     string
	Prop     string
	Main     bool // lives in the package of the command line tool
	Quick    []map[string]int
	Thorough []map[string]int
	Reach    []string
	Weight   float64
	Steps    int64
	Native   bool
	Notes    []string
}

var reFunc = regexp.MustCompile(`(?m)^func (V[A-Z]\w*)\(\) \{`)

func parseParams(fs []string) map[string]int {
	m := map[string]int{}
	for _, f := range fs {
		kv := strings.SplitN(f, "=", 2)
		if len(kv) != 2 {
			continue
		}
		n, err := strconv.Atoi(kv[1])
		if err == nil {
			m[kv[0]] = n
		}
	}
	return m
}

// loadHarnesses reads the harness files (of package xbnf, or of the command line tool).
func loadHarnesses(dir string) (decls []*harnessDecl, err error) {
	for _, sub := range []string{"", "main"} {
		files, err := filepath.Glob(filepath.Join(dir, sub, "zz_verif_*.go"))
		if err != nil {
			return nil, err
		}
		sort.Strings(files)
		for _, f := range files {
			b, err := ioutil.ReadFile(f)
			if err != nil {
				return nil, err
			}
			var pend *harnessDecl
			for _, line := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(line, "//verif:") {
					if pend == nil {
						pend = &harnessDecl{Weight: 1, Main: sub == "main"}
					}
					fs := strings.Fields(strings.TrimPrefix(line, "//verif:"))
					if len(fs) == 0 {
						continue
					}
					switch fs[0] {
					case "prop":
						pend.Prop = fs[1]
					case "quick":
						pend.Quick = append(pend.Quick, parseParams(fs[1:]))
					case "thorough":
						pend.Thorough = append(pend.Thorough, parseParams(fs[1:]))
					case "reach":
						pend.Reach = append(pend.Reach, fs[1:]...)
					case "weight":
						pend.Weight, _ = strconv.ParseFloat(fs[1], 64)
					case "steps":
						pend.Steps, _ = strconv.ParseInt(fs[1], 10, 64)
					case "note":
						pend.Notes = append(pend.Notes, strings.Join(fs[1:], " "))
					default:
						return nil, fmt.Errorf("%s: unknown annotation %s", f, fs[0])
					}
					continue
				}
				if m := reFunc.FindStringSubmatch(line); m != nil && pend != nil {
					pend.Name = m[1]
					if len(pend.Quick) == 0 {
						pend.Quick = []map[string]int{{}}
					}
					if len(pend.Thorough) == 0 {
						pend.Thorough = pend.Quick
					}
					decls = append(decls, pend)
					pend = nil
				}
			}
		}
	}
	return decls, nil
}

// symOverlay is the overlay for symbolic execution of the package in sub.
func symOverlay(repo, dir, sub string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	lib, err := ioutil.ReadFile(filepath.Join(dir, "zz_verif_lib_sym.go"))
	if err != nil {
		return nil, err
	}
	if sub == "main" {
		lib = []byte(strings.Replace(string(lib), "package xbnf", "package main", 1))
	}
	ov[filepath.Join(repo, sub, "zz_verif_lib_sym.go")] = lib
	files, _ := filepath.Glob(filepath.Join(dir, sub, "zz_verif_*.go"))
	for _, f := range files {
		if filepath.Base(f) == "zz_verif_lib_sym.go" {
			continue
		}
		b, err := ioutil.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, sub, filepath.Base(f))] = b
	}
	return ov, nil
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}
