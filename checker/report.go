package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation names the construct that breaks a rule.
type Violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"position"`
	Detail    string   `json:"detail"`
	Path      []string `json:"path,omitempty"`
}

func (v Violation) key() string { return v.Rule + "|" + v.Construct + "|" + v.Detail }

// Report collects what one property's check analysed and found.
type Report struct {
	Prop        string
	Rules       []string
	Coverage    map[string]any
	Obligations int
	Discharged  int
	Samples     []string
	Violations  []Violation
	Assumptions []string
	seen        map[string]bool
	minimum     map[string]int
}

func NewReport(prop string) *Report {
	return &Report{Prop: prop, Coverage: map[string]any{}, seen: map[string]bool{}, minimum: map[string]int{}}
}

func (r *Report) Rule(format string, a ...any) { r.Rules = append(r.Rules, fmt.Sprintf(format, a...)) }

func (r *Report) Assume(format string, a ...any) {
	r.Assumptions = append(r.Assumptions, fmt.Sprintf(format, a...))
}

// Ok counts an obligation that was discharged; a few are kept as samples.
func (r *Report) Ok(format string, a ...any) {
	r.Obligations++
	r.Discharged++
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

func (r *Report) Fail(v Violation) {
	if r.seen[v.key()] {
		return
	}
	r.seen[v.key()] = true
	r.Obligations++
	r.Violations = append(r.Violations, v)
}

func (r *Report) Failf(rule, construct, pos, format string, a ...any) {
	r.Fail(Violation{Rule: rule, Construct: construct, Pos: pos, Detail: fmt.Sprintf(format, a...)})
}

func (r *Report) Count(name string, n int) {
	if v, ok := r.Coverage[name].(int); ok {
		n += v
	}
	r.Coverage[name] = n
}

// Require fails the check when it found fewer instances than the rule must have to mean anything.
func (r *Report) Require(name string, min int) {
	n, _ := r.Coverage[name].(int)
	if n < min {
		r.Failf("coverage", name, "-", "only %d instances of %q were found, at least %d are needed for this check to mean anything", n, name, min)
	}
}

type finding struct {
	Property string `json:"property"`
	Match    string `json:"match"` // rule|construct prefix
	What     string `json:"what"`
	Status   string `json:"status"`
	Commit   string `json:"commit,omitempty"`
}

func (r *Report) Finish(verifDir, dir string, start time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sort.SliceStable(r.Violations, func(i, j int) bool { return r.Violations[i].key() < r.Violations[j].key() })
	var known []finding
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	var fresh []Violation
	for _, v := range r.Violations {
		listed := false
		for _, k := range known {
			if k.Status == "known" && k.Property == r.Prop && k.Match != "" && strings.HasPrefix(v.key(), k.Match) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
				listed = true
				break
			}
		}
		if !listed {
			fresh = append(fresh, v)
		}
	}
	cov := map[string]any{}
	for k, v := range r.Coverage {
		cov[k] = v
	}
	cov["explanation"] = "Static analysis of " + dir + ": " + strings.Join(r.Rules, " ")
	cov["rule"] = strings.Join(r.Rules, " ")
	cov["obligations"] = r.Obligations
	cov["discharged"] = r.Discharged
	cov["samples"] = r.Samples
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	replay := filepath.Join(verifDir, "evidence", r.Prop+".violations.json")
	os.Remove(replay)
	if len(fresh) == 0 {
		fmt.Printf("ok property=%s obligations=%d discharged=%d\n", r.Prop, r.Obligations, r.Discharged)
		return 0
	}
	vb, _ := json.MarshalIndent(fresh, "", " ")
	os.WriteFile(replay, append(vb, '\n'), 0o644)
	for i, v := range fresh {
		if i == 20 {
			fmt.Printf("... and %d more, see %s\n", len(fresh)-20, replay)
			break
		}
		fmt.Printf("%s: %s: [%s] %s\n", v.Pos, v.Construct, v.Rule, v.Detail)
		for _, p := range v.Path {
			fmt.Printf("    %s\n", p)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
