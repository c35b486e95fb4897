package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obligation is one decided instance of a rule.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where,omitempty"`
	OK        bool   `json:"ok"`
	Undecided bool   `json:"undecided,omitempty"`
	Detail    string `json:"detail,omitempty"`
}

// Key identifies an obligation independently of source positions.
func (o Obligation) Key() string { return o.Rule + "|" + o.Construct }

// Report accumulates the obligations of one property.
type Report struct {
	ID    string
	P     *Program
	Obs   []Obligation
	Rules map[string]string // rule -> statement
	Order []string
	Units map[string]int // measured sizes: functions, call sites, ...
	Notes []string
}

func NewReport(id string, p *Program) *Report {
	return &Report{ID: id, P: p, Rules: map[string]string{}, Units: map[string]int{}}
}

// Rule declares a rule with its statement.
func (r *Report) Rule(name, stmt string) {
	if _, ok := r.Rules[name]; !ok {
		r.Order = append(r.Order, name)
	}
	r.Rules[name] = stmt
}

// Ob records a decided obligation.
func (r *Report) Ob(rule, construct, where string, ok bool, format string, args ...any) {
	if _, known := r.Rules[rule]; !known {
		panic("undeclared rule " + rule)
	}
	r.Obs = append(r.Obs, Obligation{Rule: rule, Construct: construct, Where: where, OK: ok, Detail: fmt.Sprintf(format, args...)})
}

// Undecided records an instance the analysis has no verdict on: the code is
// shaped in a way the rule cannot be matched with. It is reported in the
// evidence and on the output, but is neither a proof nor an alarm.
func (r *Report) Undecided(rule, construct, where, format string, args ...any) {
	if _, known := r.Rules[rule]; !known {
		panic("undeclared rule " + rule)
	}
	r.Obs = append(r.Obs, Obligation{Rule: rule, Construct: construct, Where: where, Undecided: true, Detail: fmt.Sprintf(format, args...)})
}

// Floor demands at least n instances of rule: a rule that matches nothing decides nothing.
func (r *Report) Floor(rule string, n int) {
	c := 0
	for _, o := range r.Obs {
		if o.Rule == rule {
			c++
		}
	}
	if c < n {
		r.Obs = append(r.Obs, Obligation{Rule: rule, Construct: "instance-floor", Detail: fmt.Sprintf("only %d instances of the rule were found, at least %d expected: the construct it decides is gone or was not recognised", c, n)})
	}
}

type finding struct{ property, key, text string }

func loadKnown(path string) ([]finding, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue // comments and "fixed:" entries suppress nothing
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " key=")
		key, text, _ := strings.Cut(rest, " :: ")
		out = append(out, finding{strings.TrimSpace(id), strings.TrimSpace(key), strings.TrimSpace(text)})
	}
	return out, sc.Err()
}

// Finish writes evidence, prints findings and returns the exit code.
func (r *Report) Finish(root string, start time.Time, level string) int {
	known, err := loadKnown(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		r.Obs = append(r.Obs, Obligation{Rule: "infrastructure", Construct: "known_findings.txt", Detail: err.Error()})
	}
	discharged := 0
	perRule := map[string]map[string]int{}
	var bad, kn, undecided []Obligation
	knownText := map[string]string{}
	for _, o := range r.Obs {
		m := perRule[o.Rule]
		if m == nil {
			m = map[string]int{}
			perRule[o.Rule] = m
		}
		m["instances"]++
		if o.OK {
			discharged++
			m["discharged"]++
			continue
		}
		if o.Undecided {
			m["undecided"]++
			undecided = append(undecided, o)
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.property == r.ID && k.key == o.Key() {
				isKnown = true
				knownText[o.Key()] = k.text
			}
		}
		if isKnown {
			kn = append(kn, o)
		} else {
			bad = append(bad, o)
		}
	}
	var rules []map[string]any
	for _, n := range r.Order {
		m := map[string]any{"rule": n, "statement": r.Rules[n]}
		for k, v := range perRule[n] {
			m[k] = v
		}
		rules = append(rules, m)
	}
	var samples []Obligation
	seen := map[string]int{}
	for _, o := range r.Obs {
		if seen[o.Rule] < 3 || !o.OK {
			samples = append(samples, o)
		}
		seen[o.Rule]++
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation": "Static analysis of the type-checked SSA form of /repo's current source. Each rule below was instantiated on the constructs found in this run; instances without a verdict are listed as undecided.",
		"rules":       rules,
		"obligations": len(r.Obs),
		"discharged":  discharged,
		"undecided":   len(undecided),
		"analysed":    r.Units,
		"samples":     samples,
		"checker_cmd": "checker " + r.ID,
		"trusted_base": []string{"go/types and go/ssa of golang.org/x/tools v0.52.0", "the rules in /verif/checker",
			"the Go standard library behaving as documented"},
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]any{
		"property": r.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		"assumptions": []string{"no unsafe, reflection or linkname writes into the analysed state from outside the module"},
	}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	for _, o := range undecided {
		fmt.Printf("UNDECIDED: property=%s %s %s: %s\n", r.ID, o.Key(), o.Where, o.Detail)
	}
	for _, o := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, o.Key(), knownText[o.Key()])
	}
	if len(bad) == 0 {
		fmt.Printf("%s: %d obligations discharged over %d rules, %d known findings\n", r.ID, discharged, len(r.Order), len(kn))
		return 0
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Rule < bad[j].Rule })
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "property %s\n  rule:      %s: %s\n  construct: %s\n  where:     %s\n  finding:   %s\n", r.ID, o.Rule, r.Rules[o.Rule], o.Construct, o.Where, o.Detail)
	}
	replay := filepath.Join(evdir, r.ID+".violations.txt")
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	return 1
}
