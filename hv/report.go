package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Finding is one construct that breaks a rule. key identifies it without line
// numbers.
type Finding struct {
	Rule  string `json:"rule"`
	Key   string `json:"key"`
	Where string `json:"where"`
	Msg   string `json:"message"`
}

// Report collects what one check analysed and found.
type Report struct {
	id       string
	Findings []Finding
	Counts   map[string]int
	Rules    []string
	Samples  []string
	Assume   []string
	Analysed map[string]bool // functions
	Open     []string        // what the analysis could not decide
	seen     map[string]bool
}

func newReport(id string) *Report {
	return &Report{id: id, Counts: map[string]int{}, Analysed: map[string]bool{}, seen: map[string]bool{}}
}

func (r *Report) count(what string, n int) { r.Counts[what] += n }

func (r *Report) fail(rule, key, where, format string, args ...any) {
	k := rule + "|" + key
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, Finding{rule, key, where, fmt.Sprintf(format, args...)})
}

func (r *Report) sample(format string, args ...any) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

// need notes that fewer instances were analysed than confirmed by
// hand, so that no rule passes vacuously unnoticed.
func (r *Report) need(what string, min int) {
	if r.Counts[what] < min {
		r.open("vacuous", what, "only %d %s were analysed, expected at least %d: the rule may have lost its anchors", r.Counts[what], what, min)
	}
}

// open records what the analysis cannot decide on this tree: a construct it does
// not follow, or anchors it does not find. That is no violation. HV_STRICT makes
// it one, which development uses.
func (r *Report) open(rule, key, format string, args ...any) {
	if os.Getenv("HV_STRICT") != "" {
		r.fail(rule, key, "-", format, args...)
		return
	}
	r.Open = append(r.Open, rule+": "+fmt.Sprintf(format, args...))
}

func (r *Report) rule(s string) { r.Rules = append(r.Rules, s) }

type known struct{ property, rule, key, text string }

// readKnown reads "finding: property=<id> rule=<rule> key=<key> :: <text>" lines.
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(line, "finding: "), " :: ")
		var k known
		k.text = text
		if i := strings.Index(head, " key="); i >= 0 {
			k.key = head[i+5:]
			head = head[:i]
		}
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.property = v
			}
			if v, ok := strings.CutPrefix(f, "rule="); ok {
				k.rule = v
			}
		}
		out = append(out, k)
	}
	return out
}

// finish writes the evidence and the verdict, and gives the exit status.
func (r *Report) finish(verif, tier string, seed int, wall float64) int {
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Rule < r.Findings[j].Rule })
	var viol, kn []Finding
	ks := readKnown(filepath.Join(verif, "known-findings.txt"))
	for _, f := range r.Findings {
		hit := false
		for _, k := range ks {
			if k.property == r.id && k.rule == f.Rule && k.key == f.Key {
				hit = true
			}
		}
		if hit {
			kn = append(kn, f)
		} else {
			viol = append(viol, f)
		}
	}
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", r.id, f.Where, f.Rule, f.Msg)
	}
	cov := map[string]any{
		"rules":              r.Rules,
		"functions_analysed": len(r.Analysed),
		"samples":            r.Samples,
	}
	if len(r.Open) > 0 {
		cov["not_decided"] = r.Open
	}
	for _, o := range r.Open {
		fmt.Printf("NOT-DECIDED: property=%s %s\n", r.id, o)
	}
	for k, v := range r.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	var parts []string
	for _, k := range sortedKeys(r.Counts) {
		parts = append(parts, fmt.Sprintf("%d %s", r.Counts[k], k))
	}
	cov["explanation"] = "Static analysis of the type-checked SSA form of /repo's current tree; no code of /repo was run. Analysed: " + strings.Join(parts, ", ") +
		". Rules: " + strings.Join(r.Rules, " ")
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assume, "wall_s": wall, "violations": len(viol),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if r.Samples == nil {
		cov["samples"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(viol) == 0 {
		fmt.Printf("ok %s: %s\n", r.id, strings.Join(parts, ", "))
		return 0
	}
	rp := filepath.Join(dir, r.id+".violations.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: [%s/%s] %s\n", f.Where, r.id, f.Rule, f.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}
