package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one construct that breaks a property.
type Finding struct {
	Key string // stable identification: rule and construct, no line numbers
	Msg string // diagnosis with position
}

// Report collects what a check did.
type Report struct {
	Property    string
	Rule        string
	Explanation string
	Counts      map[string]int
	Samples     []string
	Assumptions []string
	findings    map[string]Finding
	order       []string
	start       time.Time
}

func newReport(id string) *Report {
	return &Report{Property: id, Counts: map[string]int{}, findings: map[string]Finding{}, start: time.Now()}
}

// Violation records a finding once per key.
func (r *Report) Violation(key, format string, args ...interface{}) {
	if _, ok := r.findings[key]; ok {
		return
	}
	r.findings[key] = Finding{key, fmt.Sprintf(format, args...)}
	r.order = append(r.order, key)
}

// Require fails when fewer instances were found than confirmed by hand.
func (r *Report) Require(what string, n, min int) {
	r.Counts[what] = n
	if n < min {
		r.Violation("too-few:"+what, "only %d instances of %q were found, at least %d were expected: the anchor of the rule is gone, so the property is undecided", n, what, min)
	}
}

func (r *Report) Sample(format string, args ...interface{}) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

type knownFinding struct{ property, key, text string }

func readKnown(path string) ([]knownFinding, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: ") {
			continue // comments and "fixed:" lines suppress nothing
		}
		// known: property=<id> key=<key> :: <what fails>
		rest := strings.TrimPrefix(line, "known: ")
		head, text, _ := strings.Cut(rest, " :: ")
		prop, key, ok := strings.Cut(strings.TrimPrefix(head, "property="), " key=")
		if !ok {
			return nil, fmt.Errorf("malformed line in %s: %s", path, line)
		}
		out = append(out, knownFinding{prop, key, text})
	}
	return out, sc.Err()
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish(verifDir, tier string, seed int) int {
	known, err := readKnown(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		r.Violation("known-findings-file", "cannot read the known findings: %v", err)
	}
	knownKeys := map[string]string{}
	for _, k := range known {
		if k.property == r.Property {
			knownKeys[k.key] = k.text
		}
	}
	var bad []Finding
	var listed []string
	for _, key := range r.order {
		if text, ok := knownKeys[key]; ok {
			listed = append(listed, fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.Property, text))
			continue
		}
		bad = append(bad, r.findings[key])
	}

	counts := map[string]int{}
	for k, v := range r.Counts {
		counts[k] = v
	}
	msgs := []string{}
	for _, b := range bad {
		msgs = append(msgs, b.Key+": "+b.Msg)
	}
	sort.Strings(listed)
	ev := map[string]interface{}{
		"property": r.Property,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation": r.Explanation,
			"rule":        r.Rule,
			"analysed":    counts,
			"samples":     r.Samples,
			"findings":    msgs,
			"known":       listed,
		},
		"assumptions": r.Assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(bad),
	}
	out, err := json.MarshalIndent(ev, "", "  ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(verifDir, "evidence", r.Property+".json"), append(out, '\n'), 0o644)
	}
	if err != nil {
		bad = append(bad, Finding{"evidence", err.Error()})
	}

	var keys []string
	for k := range counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s: %s\n", r.Property, r.Rule)
	for _, k := range keys {
		fmt.Printf("  %s: %d\n", k, counts[k])
	}
	for _, l := range listed {
		fmt.Println(l)
	}
	if len(bad) == 0 {
		fmt.Printf("%s holds on everything analysed (%.1fs)\n", r.Property, time.Since(r.start).Seconds())
		return 0
	}
	for i, b := range bad {
		if i >= 25 {
			fmt.Printf("  ... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  %s\n    %s\n", b.Key, b.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, filepath.Join("evidence", r.Property+".json"))
	return 1
}
