package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func main() {
	if len(os.Args) == 2 && os.Args[1] == "docs" {
		docs()
		return
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: joecheck REPO VERIF ID|all")
		os.Exit(2)
	}
	os.Exit(run(os.Args[1], os.Args[2], os.Args[3]))
}

// docs prints what each check decides.
func docs() {
	type doc struct {
		Explanation string
		Rules       []RuleDoc
	}
	out := map[string]doc{}
	for id, c := range checks {
		out[id] = doc{c.Explanation, c.Rules}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func run(repo, verif, id string) (code int) {
	start := time.Now()
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("internal error while analysing: %v\n%s\n", r, debug.Stack())
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, "analysis-failed")
			code = 1
		}
	}()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	if id == "all" {
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	} else {
		if checks[id] == nil {
			fmt.Printf("no such check %s\n", id)
			return 2
		}
		ids = []string{id}
	}
	w, err := Load(repo, []string{"./..."})
	if err != nil {
		for _, k := range ids {
			fmt.Printf("the source cannot be analysed: %v\n", err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", k, "load-failed")
		}
		return 1
	}
	if what := os.Getenv("JC_DUMP"); what != "" {
		dump(w, what)
		return 0
	}
	for _, k := range ids {
		ch := checks[k]
		t0 := start
		if id == "all" {
			t0 = time.Now()
		}
		c := &Ctx{W: w, Check: ch, seen: map[string]int{}, Funcs: map[string]bool{}}
		envs := []string{"linux/amd64"}
		ch.Run(c)
		if ch.Darwin {
			for _, os := range []string{"darwin", "windows"} {
				factCache = map[factKey][]FactSet{}
				w2, err := Load(repo, []string{"./extensions/exec"}, "GOOS="+os, "CGO_ENABLED=0")
				if err != nil {
					c.Bad("framework", "load:"+os, "-", "%v", err)
					continue
				}
				c.W = w2
				envs = append(envs, os+"/amd64 (extensions/exec)")
				ch.Run(c)
			}
			c.W = w
		}
		if rc := c.finish(verif, tier, seed, t0, envs); rc > code {
			code = rc
		}
	}
	return code
}
