// Package verifharness decides the properties of /verif/properties.jsonl by generated cases.
// It is laid over the repository by /verif/check.py.
package verifharness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// mismatch is a disagreement between the code and an oracle, and the properties it breaks.
type mismatch struct {
	Kind   string   `json:"kind"`
	Props  []string `json:"props"`
	Detail string   `json:"detail"`
}

func (m mismatch) concerns(prop string) bool {
	for _, p := range m.Props {
		if p == prop || p == "*" {
			return true
		}
	}
	return false
}

// run collects what a case did.
type run struct {
	prop       string
	mismatches []mismatch
	classes    map[string]bool
	nontrivial bool
}

func (r *run) fail(kind string, props []string, format string, args ...any) {
	if len(r.mismatches) > 40 {
		return
	}
	detail := fmt.Sprintf(format, args...)
	if len(detail) > 1500 {
		detail = detail[:1500] + "..."
	}
	r.mismatches = append(r.mismatches, mismatch{kind, props, detail})
}

// class notes that the case belongs to a class.
func (r *run) class(name string) { r.classes[name] = true }

// message asks an error for its message, as callers do.
func (r *run) message(err error, props []string) {
	r.guard("the message of an error", func() {
		if err.Error() == "" {
			r.fail("no-message", props, "an error has no message")
		}
	})
}

// guard runs f, turning a panic into a mismatch of all properties.
func (r *run) guard(what string, f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(harnessError); is {
				panic(x)
			}
			r.fail("panic", []string{"*"}, "%s panicked: %v\n%s", what, x, trimStack(debug.Stack()))
			ok = false
		}
	}()
	f()
	return true
}

// harnessError is a defect of the harness rather than of the code.
type harnessError string

func trimStack(stack []byte) string {
	lines := strings.Split(string(stack), "\n")
	var kept []string
	for _, line := range lines {
		if strings.Contains(line, "destructive/") && !strings.Contains(line, "verifharness") {
			kept = append(kept, strings.TrimSpace(line))
		}
		if len(kept) > 8 {
			break
		}
	}
	return strings.Join(kept, " | ")
}

// check is how a property is decided.
type check struct {
	// rule states how cases are made and which are non-trivial.
	rule string
	// gen draws a case, which must be plain data.
	gen func(t *rapid.T) any
	// blank returns a pointer to decode a case into.
	blank func() any
	// run runs a case.
	run func(c any, r *run)
}

var checks = map[string]check{}

func register(prop string, c check) { checks[prop] = c }

type output struct {
	Property    string          `json:"property"`
	Evaluations int             `json:"evaluations"`
	Hashes      []string        `json:"hashes"`
	Rule        string          `json:"rule"`
	Classes     map[string]int  `json:"classes"`
	Samples     []any           `json:"samples"`
	Failed      bool            `json:"failed"`
	Case        json.RawMessage `json:"case,omitempty"`
	Mismatches  []mismatch      `json:"mismatches,omitempty"`
	Done        bool            `json:"done"`
	Error       string          `json:"error,omitempty"`
}

func runCase(c check, prop string, data any) *run {
	r := &run{prop: prop, classes: map[string]bool{}}
	runGuarded(c, data, r)
	for _, m := range r.mismatches {
		if !m.concerns(prop) {
			r.class(fmt.Sprintf("mismatch of %v", m.Props))
			if os.Getenv("VERIF_DEBUG") != "" {
				text, _ := json.Marshal(data)
				fmt.Printf("other mismatch: %v\n%s\n", m, text)
			}
		}
	}
	return r
}

// runGuarded runs a case, taking a panic of the code outside of guard to be a mismatch.
func runGuarded(c check, data any, r *run) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		stack := debug.Stack()
		if _, is := x.(harnessError); is || !fromCode(string(stack)) {
			panic(x)
		}
		r.fail("panic", []string{"*"}, "the code panicked: %v\n%s", x, trimStack(stack))
	}()
	c.run(data, r)
}

// fromCode is whether a panic was raised by the code under test: its innermost frames up to the
// first one of the harness include one of the code.
func fromCode(stack string) bool {
	_, stack, found := strings.Cut(stack, "\npanic(")
	if !found {
		return false
	}
	for _, line := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(line, "\t"):
		case strings.Contains(line, "verifharness"):
			return false
		case strings.HasPrefix(line, "github.com/dball/destructive/"):
			return true
		}
	}
	return false
}

func (r *run) relevant() (ms []mismatch) {
	for _, m := range r.mismatches {
		if m.concerns(r.prop) {
			ms = append(ms, m)
		}
	}
	return
}

func envInt(name string, def int) int {
	n, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return n
}

func TestCheck(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("not run by check.py")
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	c, ok := checks[prop]
	if !ok {
		t.Fatalf("no check for %s", prop)
	}
	out := output{Property: prop, Rule: c.rule, Classes: map[string]int{}}
	outPath := os.Getenv("VERIF_OUT")
	save := func() {
		data, err := json.Marshal(out)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(outPath, data, 0o644); err != nil {
			panic(err)
		}
	}
	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		replay(t, c, prop, path, &out)
		out.Done = true
		save()
		return
	}
	curPath := os.Getenv("VERIF_CUR")
	hashes := map[uint64]bool{}
	best := ""
	sampled := 0
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.seed", os.Getenv("VERIF_SHARD_SEED"))
	flag.Set("rapid.checks", strconv.Itoa(envInt("VERIF_CASES", 100)))
	flag.Set("rapid.shrinktime", "5s")
	t.Run("cases", func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			data := c.gen(rt)
			text, err := json.Marshal(data)
			if err != nil {
				panic(harnessError(err.Error()))
			}
			if curPath != "" {
				if err := os.WriteFile(curPath, text, 0o644); err != nil {
					panic(harnessError(err.Error()))
				}
			}
			// Run what a replay would run.
			again := c.blank()
			if err := json.Unmarshal(text, again); err != nil {
				panic(harnessError(err.Error()))
			}
			r := runCase(c, prop, again)
			ms := r.relevant()
			if len(ms) > 0 {
				if best == "" || len(text) < len(best) {
					best = string(text)
					out.Failed = true
					out.Case = json.RawMessage(text)
					out.Mismatches = ms
					save()
					if os.Getenv("VERIF_NOSHRINK") != "" {
						os.Exit(1)
					}
				}
				rt.Fatalf("violation of %s", prop)
			}
			if out.Failed {
				return
			}
			out.Evaluations++
			for name := range r.classes {
				out.Classes[name]++
			}
			if r.nontrivial {
				h := fnv.New64a()
				h.Write(text)
				if !hashes[h.Sum64()] {
					hashes[h.Sum64()] = true
					if len(text) < 2500 && (sampled == 0 || (sampled < 3 && out.Evaluations%97 == 0)) {
						sampled++
						out.Samples = append(out.Samples, json.RawMessage(text))
					}
				}
			}
		})
	})
	if out.Failed {
		out.Case = shrinkJSON(out.Case, func(text []byte) (fails bool) {
			defer func() {
				if recover() != nil {
					fails = false
				}
			}()
			if curPath != "" {
				os.WriteFile(curPath, text, 0o644)
			}
			data := c.blank()
			if json.Unmarshal(text, data) != nil {
				return false
			}
			ms := runCase(c, prop, data).relevant()
			if len(ms) > 0 {
				out.Mismatches = ms
			}
			return len(ms) > 0
		}, 20*time.Second)
	}
	out.Hashes = make([]string, 0, len(hashes))
	for h := range hashes {
		out.Hashes = append(out.Hashes, strconv.FormatUint(h, 36))
	}
	sort.Strings(out.Hashes)
	out.Done = true
	if t.Failed() && !out.Failed {
		out.Error = "the generator or the harness failed"
	}
	save()
}

func replay(t *testing.T, c check, prop string, path string, out *output) {
	text, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var file struct {
		Case json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(text, &file); err != nil {
		t.Fatal(err)
	}
	// Go's maps are traversed in random order, so some cases fail only some of the time.
	start := time.Now()
	for i := 0; i < 200 && (i < 5 || time.Since(start) < 20*time.Second); i++ {
		data := c.blank()
		if err := json.Unmarshal(file.Case, data); err != nil {
			t.Fatal(err)
		}
		r := runCase(c, prop, data)
		out.Evaluations++
		if ms := r.relevant(); len(ms) > 0 {
			out.Failed = true
			out.Case = file.Case
			out.Mismatches = ms
			return
		}
	}
}

// pick draws a nearly uniform number under n that shrinks to 0.
func pick(t *rapid.T, n int) int {
	return int(anyUint64.Draw(t, "n") % uint64(n))
}

var anyUint64 = rapid.Uint64()

// choose draws an index by weight. The zero index is the simplest.
func choose(t *rapid.T, weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	k := pick(t, total)
	for i, w := range weights {
		if k < w {
			return i
		}
		k -= w
	}
	panic("unreachable")
}

// chance draws true with a probability of percent/100.
func chance(t *rapid.T, percent int) bool { return choose(t, 100-percent, percent) == 1 }

// list draws a list of which single elements may be dropped when shrinking.
func list[T any](t *rapid.T, gen *rapid.Generator[T], max int) []T {
	min := 0
	switch pick(t, 3) {
	case 1:
		min = max / 3
	case 2:
		min = (max * 2) / 3
	}
	return rapid.SliceOfN(gen, min, max).Draw(t, "list")
}
