package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check decides one property.
type Check struct {
	ID          string
	Explanation string // what the check decides and what it does not
	Rules       []RuleDoc
	Run         func(*Ctx)
	Darwin      bool // also analyse the other build configurations
}

type RuleDoc struct {
	Name string
	Text string
	Min  int // the number of instances below which the rule is considered vacuous
}

type Obligation struct {
	Rule  string `json:"rule"`
	Key   string `json:"construct"`
	Where string `json:"where"`
	OK    bool   `json:"holds"`
	Msg   string `json:"detail,omitempty"`
}

type Ctx struct {
	W     *World
	Check *Check
	Obs   []Obligation
	seen  map[string]int
	Funcs map[string]bool
	Sites int
}

func (c *Ctx) add(rule, key, where string, ok bool, msg string) {
	k := rule + "|" + key
	if i, dup := c.seen[k]; dup {
		if !ok && c.Obs[i].OK {
			c.Obs[i].OK = false
			c.Obs[i].Msg = msg
			c.Obs[i].Where = where
		}
		return
	}
	c.seen[k] = len(c.Obs)
	c.Obs = append(c.Obs, Obligation{rule, key, where, ok, msg})
}

// Ok records a discharged obligation; Bad one that fails.
func (c *Ctx) Ok(rule, key, where string) { c.add(rule, key, where, true, "") }
func (c *Ctx) Bad(rule, key, where, format string, a ...any) {
	c.add(rule, key, where, false, fmt.Sprintf(format, a...))
}

// That records an obligation by its truth.
func (c *Ctx) That(ok bool, rule, key, where, format string, a ...any) {
	if ok {
		c.Ok(rule, key, where)
	} else {
		c.Bad(rule, key, where, format, a...)
	}
}

// Missing reports an anchor that could not be resolved: undecided means fail.
func (c *Ctx) Missing(rule, what string) {
	c.Bad(rule, "anchor:"+what, "-", "cannot find %s in the current source: the rule cannot be decided", what)
}

type finding struct {
	prop, key, text string
	used            bool
}

func readFindings(path string) ([]*finding, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []*finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// known: property=C01 key="rule|construct" text
		if !strings.HasPrefix(l, "known: property=") {
			return nil, fmt.Errorf("%s: cannot read %q", path, l)
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimPrefix(rest, "key=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			return nil, fmt.Errorf("%s: %q: %v", path, l, err)
		}
		key, _ := strconv.Unquote(q)
		out = append(out, &finding{prop: id, key: key, text: strings.TrimSpace(rest[len(q):])})
	}
	return out, sc.Err()
}

// finish prints the verdict, writes the evidence and returns the exit status.
func (c *Ctx) finish(verif, tier string, seed int, start time.Time, envs []string) int {
	per := map[string]int{}
	for _, o := range c.Obs {
		per[o.Rule]++
	}
	for _, r := range c.Check.Rules {
		if per[r.Name] < r.Min {
			c.Bad(r.Name, "floor", "-", "only %d instances of this rule were found in the source, at least %d are expected: the rule no longer sees the code it is about", per[r.Name], r.Min)
		}
	}
	fs, err := readFindings(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		c.Bad("framework", "known-findings", "-", "%v", err)
	}
	known := map[string]*finding{}
	for _, f := range fs {
		if f.prop == c.Check.ID {
			known[f.key] = f
		}
	}
	var bad []Obligation
	discharged := 0
	nknown := 0
	for _, o := range c.Obs {
		if o.OK {
			discharged++
			continue
		}
		if f := known[o.Rule+"|"+o.Key]; f != nil {
			nknown++
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", c.Check.ID, f.text, o.Where, o.Rule)
			continue
		}
		bad = append(bad, o)
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Where < bad[j].Where })

	rules := map[string]any{}
	for _, r := range c.Check.Rules {
		rules[r.Name] = map[string]any{"rule": r.Text, "instances": per[r.Name], "minimum": r.Min}
	}
	sample := map[string][]string{}
	for _, o := range c.Obs {
		if len(sample[o.Rule]) < 12 {
			sample[o.Rule] = append(sample[o.Rule], o.Where+" "+o.Key)
		}
	}
	units := []string{}
	for _, p := range c.W.Pkgs {
		if !excludedPkg(p.PkgPath) {
			units = append(units, p.PkgPath)
		}
	}
	ev := map[string]any{
		"property": c.Check.ID, "tier": tier, "seed": seed, "level": "other",
		"wall_s":     float64(int(time.Since(start).Seconds()*1000)) / 1000,
		"violations": len(bad),
		"coverage": map[string]any{
			"explanation":         c.Check.Explanation,
			"obligations":         len(c.Obs),
			"discharged":          discharged,
			"known_findings":      nknown,
			"packages":            units,
			"functions_in_scope":  len(c.W.Funcs),
			"functions_with_obs":  len(c.Funcs),
			"rules":               rules,
			"instances_sample":    sample,
			"build_configuration": envs,
			"exhaustive":          true,
			"rule":                "every construct of the current source that matches a rule is one obligation; none is sampled",
		},
		"assumptions": []string{
			"Go type checker and golang.org/x/tools/go/ssa represent the program faithfully",
			"reflection, unsafe and code outside the module are not followed",
		},
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.Check.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d obligations over %d functions, %d discharged, %d known, %d violated\n", c.Check.ID, len(c.Obs), len(c.W.Funcs), discharged, nknown, len(bad))
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", c.Check.ID+".violations.txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", o.Where, o.Rule, o.Key, o.Msg)
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, rp)
	return 1
}
