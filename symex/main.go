package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fatalf(2, "usage: symex check PROPERTY [-tier quick|thorough] | replay FILE | selfcheck")
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		tier := fs.String("tier", "", "quick or thorough")
		budget := fs.Int("budget", 0, "seconds")
		only := fs.String("only", "", "only harnesses whose name contains this")
		if len(os.Args) < 3 {
			fatalf(2, "which property?")
		}
		fs.Parse(os.Args[3:])
		if *tier == "" {
			*tier = os.Getenv("VERIF_TIER")
		}
		if *tier != "thorough" {
			*tier = "quick"
		}
		b := time.Duration(*budget) * time.Second
		if b == 0 {
			b = 150 * time.Second
			if *tier == "thorough" {
				b = 700 * time.Second
			}
		}
		os.Exit(runCheck(os.Args[2], *tier, b, *only))
	case "replay":
		os.Exit(runReplay(os.Args[2]))
	case "selfcheck":
		e, err := loadEngine("/repo", "", nil, true)
		if err != nil {
			fatalf(1, "%v", err)
		}
		n, bad := selfcheck(e)
		fmt.Println("tests run in the interpreter:", n, "failed:", bad)
		if len(bad) > 0 {
			os.Exit(1)
		}
	default:
		fatalf(2, "unknown command %s", os.Args[1])
	}
}

func selfcheck(e *Engine) (int, []string) {
	var bad []string
	n := 0
	for name, m := range e.target.Members {
		fn := e.target.Func(name)
		if fn == nil || m == nil || len(name) < 5 || name[:4] != "Test" || fn.Signature.Params().Len() != 1 {
			continue
		}
		h := &Harness{name: name, fn: e.compileFunc(fn), maxDecisions: 10000, maxSteps: 200000000, testArg: true}
		ex, err := newExplorer(e, h, 1, time.Now().Add(60*time.Second))
		if err != nil {
			return 0, []string{err.Error()}
		}
		ex.run()
		n++
		if ex.aborts["done"] != 1 {
			m := fmt.Sprint(name, ex.aborts, ex.reduced, ex.errors)
			for k := range ex.cands {
				m += k
			}
			bad = append(bad, m)
		}
	}
	return n, bad
}
