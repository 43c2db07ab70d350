// csscheck decides semantic properties of stephen/cssc from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

type checkFunc func(p *Program, r *Report)

var checks = map[string]checkFunc{}

// register is called from the init functions of the check files.
func register(id string, f checkFunc) { checks[id] = f }

var (
	tier    = "quick"
	verbose bool
)

func main() {
	repo := flag.String("repo", "/repo", "the repository to analyse")
	verif := flag.String("verif", "", "the directory of known-findings.txt and evidence/")
	flag.BoolVar(&verbose, "v", false, "print what the analysis does")
	flag.Parse()
	debug.SetGCPercent(400)
	if *verif == "" {
		exe, _ := os.Executable()
		*verif = filepath.Dir(filepath.Dir(exe))
	}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		if c := runCheck(id, *repo, *verif, seed); c != 0 {
			code = 1
		}
	}
	os.Exit(code)
}

var loaded *Program

func runCheck(id, repo, verif string, seed int) (code int) {
	r := newReport(id)
	f, ok := checks[id]
	if !ok {
		fmt.Printf("no check for %s\n", id)
		return 1
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Violation("internal", "the analysis could not decide the property: %v\n%s", e, indent(string(debug.Stack())))
			}
		}()
		if loaded == nil {
			p, err := loadProgram(repo, nil)
			if err != nil {
				r.Violation("load", "%v", err)
				return
			}
			loaded = p
		}
		f(loaded, r)
	}()
	return r.finish(verif, tier, seed)
}

func indent(s string) string { return strings.ReplaceAll(s, "\n", "\n      ") }
