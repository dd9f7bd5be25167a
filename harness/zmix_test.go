package verifharness

import (
	"encoding/json"

	"pgregory.net/rapid"
)

// mixedCase is a case of one of several checks.
type mixedCase struct {
	Part int `json:"part"`
	Case any `json:"case"`

	parts []check
}

func (c *mixedCase) UnmarshalJSON(text []byte) error {
	var raw struct {
		Part int
		Case json.RawMessage
	}
	if err := json.Unmarshal(text, &raw); err != nil {
		return err
	}
	if raw.Part < 0 || raw.Part >= len(c.parts) {
		return harnessFault("no such part")
	}
	c.Part = raw.Part
	c.Case = c.parts[c.Part].blank()
	return json.Unmarshal(raw.Case, c.Case)
}

type harnessFault string

func (f harnessFault) Error() string { return string(f) }

// mix makes a share of the cases of a property be those of other checks, which may break it, too.
func mix(prop string, weights []int, others ...check) {
	parts := append([]check{checks[prop]}, others...)
	rule := parts[0].rule
	for _, p := range others {
		rule += " || Some of the cases are of this kind instead: " + p.rule
	}
	register(prop, check{
		rule: rule,
		gen: func(t *rapid.T) any {
			i := choose(t, weights...)
			return &mixedCase{Part: i, Case: parts[i].gen(t)}
		},
		blank: func() any { return &mixedCase{parts: parts} },
		run: func(c any, r *run) {
			m := c.(*mixedCase)
			r.class([]string{"part:own", "part:1", "part:2"}[m.Part])
			parts[m.Part].run(m.Case, r)
		},
	})
}

func init() {
	vocabulary := baseViews
	vocabulary.badUse, vocabulary.badKinds, vocabulary.steps = 60, [4]int{0, 0, 0, 1}, 5
	named := viewCheckOf(vocabulary, "Many requests also assert or retract a struct that denotes part of the vocabulary by its ident. Non-trivial: at least one accepted request, and one rejected because of that.",
		func(s *viewRun) bool { return s.accepted > 0 && s.badRejected > 0 })
	mix("C01", []int{76, 14, 10}, checks["C19"], checks["C16"])
	mix("C02", []int{76, 24}, checks["C21"])
	mix("C09", []int{82, 8, 10}, named, checks["C17"])
	mix("C10", []int{82, 10, 8}, named, checks["C17"])
	mix("C13", []int{64, 27, 9}, checks["C16"], checks["C19"])
	mix("C19", []int{80, 20}, graphCheck(25, "Non-trivial: at least two accepted requests.", func(s *viewRun, stats graphStats) bool { return s.accepted >= 2 }))
	mix("C20", []int{85, 15}, graphCheck(60, "Non-trivial: at least one accepted request that retracts.", func(s *viewRun, stats graphStats) bool { return s.retracted > 0 }))
}
