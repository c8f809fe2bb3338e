package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation. Key identifies the construct (never a
// line number) so that known findings survive unrelated edits.
type Finding struct {
	Rule   string `json:"rule"`
	Key    string `json:"key"`
	Where  string `json:"where"`
	Detail string `json:"detail"`
}

// Report accumulates the obligations of one property.
type Report struct {
	Prop        string
	Tier        string
	start       time.Time
	Obligations int
	Discharged  int
	Findings    []Finding
	Undecided   []Finding
	Counts      map[string]int
	Mins        map[string]int
	Samples     []string
	Notes       []string
	Rules       []string
	Assumptions []string
	seen        map[string]bool
	sampleKind  map[string]int
}

func NewReport(prop, tier string) *Report {
	return &Report{Prop: prop, Tier: tier, start: time.Now(), Counts: map[string]int{}, Mins: map[string]int{}, seen: map[string]bool{}, sampleKind: map[string]int{}}
}

func (r *Report) OK(rule, key string) {
	r.Obligations++
	r.Discharged++
	r.Counts["discharged: "+rule]++
	if r.sampleKind[rule] < 3 {
		r.sampleKind[rule]++
		r.Samples = append(r.Samples, rule+" | "+key)
	}
}

func (r *Report) Fail(rule, key, where, f string, a ...interface{}) {
	r.Obligations++
	id := rule + "|" + key
	if r.seen[id] {
		return
	}
	r.seen[id] = true
	r.Findings = append(r.Findings, Finding{rule, key, where, fmt.Sprintf(f, a...)})
}

// Unknown records an obligation the analysis could not decide. It is reported
// in the evidence and does not raise an alarm.
func (r *Report) Unknown(rule, key, where, f string, a ...interface{}) {
	r.Obligations++
	id := "?" + rule + "|" + key
	if r.seen[id] {
		return
	}
	r.seen[id] = true
	r.Undecided = append(r.Undecided, Finding{rule, key, where, fmt.Sprintf(f, a...)})
}

// Check is OK or Fail.
func (r *Report) Check(ok bool, rule, key, where, f string, a ...interface{}) bool {
	if ok {
		r.OK(rule, key)
	} else {
		r.Fail(rule, key, where, f, a...)
	}
	return ok
}

func (r *Report) Count(k string, n int) { r.Counts[k] += n }

// Require fails the check when fewer instances than confirmed by hand matched.
func (r *Report) Require(what string, got, min int) {
	r.Counts["instances: "+what] = got
	r.Mins[what] = min
	if got < min {
		r.Fail("instances", what, "-", "only %d instances of %q found, at least %d expected: the rule no longer sees the code it is about", got, what, min)
	}
}

type known struct {
	prop, rule, key, text string
}

func loadKnown(file string) []known {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		ln := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(ln, "finding: ") {
			continue
		}
		// finding: property=C01 rule=... key=<key> :: text
		body := strings.TrimPrefix(ln, "finding: ")
		head, text, _ := strings.Cut(body, " :: ")
		var k known
		k.text = text
		rest := head
		if p, t, ok := strings.Cut(rest, " rule="); ok {
			k.prop = strings.TrimPrefix(p, "property=")
			if ru, key, ok := strings.Cut(t, " key="); ok {
				k.rule, k.key = ru, key
				out = append(out, k)
			}
		}
	}
	return out
}

// Finish writes the evidence and returns the exit code.
func (r *Report) Finish(verif string) int {
	r.standing()
	kn := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	var viol []Finding
	knownHit := 0
	for _, f := range r.Findings {
		matched := false
		for _, k := range kn {
			if k.prop == r.Prop && k.rule == f.Rule && k.key == f.Key {
				matched = true
				knownHit++
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s] %s (%s)\n", r.Prop, f.Rule, f.Key, f.Detail, f.Where)
				break
			}
		}
		if !matched {
			viol = append(viol, f)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Key < viol[j].Key })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":    strings.Join(r.Notes, " "),
		"rules":          r.Rules,
		"obligations":    r.Obligations,
		"discharged":     r.Discharged,
		"known_findings": knownHit,
		"undecided":      len(r.Undecided),
		"counts":         r.Counts,
		"minimums":       r.Mins,
	}
	if len(r.Samples) > 0 {
		s := r.Samples
		if len(s) > 24 {
			s = s[:24]
		}
		cov["samples"] = s
	}
	if len(r.Undecided) > 0 {
		u := r.Undecided
		if len(u) > 40 {
			u = u[:40]
		}
		cov["undecided_list"] = u
	}
	if len(viol) > 0 {
		cov["violations_list"] = viol
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(viol),
	}
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d known, %d violations (%.1fs)\n", r.Prop, r.Obligations, r.Discharged, len(r.Undecided), knownHit, len(viol), time.Since(r.start).Seconds())
	rp := filepath.Join(dir, r.Prop+".violations.txt")
	if len(viol) == 0 {
		os.Remove(rp)
		return 0
	}
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s\n  construct: %s\n  where:     %s\n  %s\n", v.Rule, v.Key, v.Where, v.Detail)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}

// failAll reports a problem that prevents the analysis from deciding anything.
func failAll(prop, tier, verif, rule, detail string) int {
	r := NewReport(prop, tier)
	r.Notes = append(r.Notes, "the analysis could not run")
	r.Fail(rule, "-", "-", "%s", detail)
	return r.Finish(verif)
}
