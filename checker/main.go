package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// checks maps a property to the analysis that decides it.
var checks = map[string]func(*Program, *Report){
	"C02": checkRaces,
	"C03": checkArguments,
	"C04": checkIsolation,
	"C05": checkHistory,
	"C06": checkDeterminism,
	"C07": checkAmbient,
}

func main() {
	prop := flag.String("property", "", "property to decide, or 'all'")
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "", "directory holding evidence and known findings")
	dump := flag.String("dump", "", "debugging output")
	flag.Parse()
	if *verif == "" {
		wd, _ := os.Getwd()
		*verif = wd
	}
	*verif, _ = filepath.Abs(*verif)
	start := time.Now()
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	if f := os.Getenv("PHPROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	p, err := Load(*repo)
	if *dump != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		runDump(p, *dump, flag.Args())
		return
	}
	code := 0
	for _, id := range ids {
		t := time.Now()
		if id == ids[0] {
			t = start
		}
		f := checks[id]
		if f == nil {
			fmt.Printf("unknown property %q\n", id)
			os.Exit(2)
		}
		r := NewReport(id)
		if err != nil {
			r.Failf("load", "repository", "-", "%v", err)
		} else {
			runCheck(p, f, r)
		}
		if c := r.Finish(*verif, *repo, t); c > code {
			code = c
		}
	}
	pprof.StopCPUProfile()
	if os.Getenv("PHSTAT") != "" && p != nil {
		for k, x := range ordered(p.facts) {
			if e, ok := x.(*engine); ok {
				fmt.Println("terms", k, len(e.tab))
			}
		}
	}
	os.Exit(code)
}

func runCheck(p *Program, f func(*Program, *Report), r *Report) {
	defer func() {
		if x := recover(); x != nil {
			r.Failf("undecided", "analysis", "-", "the analysis could not handle this program: %v", x)
			fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
		}
	}()
	f(p, r)
}

var dumps = map[string]func(*Program, []string){}

func runDump(p *Program, what string, args []string) {
	if f := dumps[what]; f != nil {
		f(p, args)
		return
	}
	fmt.Println("unknown dump")
	os.Exit(2)
}
