package verifharness

import (
	"fmt"

	"pgregory.net/rapid"
)

// profile weighs what the generator makes, by property.
type profile struct {
	// claims: plain, held (re-assert or retract), swap (replace), steal, declare, a declaration's datum
	claims [6]int
	// ents: entity, temp id, transaction, transaction entity, attribute
	ents [5]int
	// unique is the percentage of attributes that are unique, many that are many-valued.
	unique, many int
	// refs is the percentage of ref attributes.
	refs int
	// forms is the percentage of references that are not plain ids.
	forms int
	// bad is the permille of broken elements.
	bad int
	// sysIdents is the percentage of odd and system idents among idents.
	sysIdents int
	// identClaims is the percentage of plain claims about idents.
	identClaims int
	// retract is the percentage of claims that retract, retractEnt of steps that retract entities.
	retract, retractEnt int
	// pool bounds the value pools, so that values collide; 0 is unbounded.
	pool                         int
	maxSteps, maxClaims, queries int
	types                        []int // preferred types, if any
	// stories is the percentage of cases with a story of a rejected request and what follows.
	stories int
	// chains is the percentage of cases with chains of identities.
	chains int
}

var baseProfile = profile{
	claims: [6]int{50, 12, 15, 6, 4, 1}, ents: [5]int{50, 40, 3, 2, 4},
	unique: 45, many: 30, refs: 20, forms: 25, bad: 12, sysIdents: 10, identClaims: 12,
	retract: 15, retractEnt: 12, pool: 0, maxSteps: 10, maxClaims: 6, queries: 2, chains: 2,
}

func drawForm(t *rapid.T, p *profile) int {
	if chance(t, p.forms) {
		return 1 + choose(t, 30, 30, 8, 2, 1)
	}
	return 0
}

func (p *profile) broken(t *rapid.T) bool {
	return p.bad > 0 && choose(t, 1000-p.bad, p.bad) == 1
}

func drawEnt(t *rapid.T, p *profile) (s refSpec) {
	if p.broken(t) {
		return drawBad(t)
	}
	switch choose(t, p.ents[:]...) {
	case 0:
		s = refSpec{N: pick(t, 12)}
	case 1:
		s = refSpec{K: "tmp", N: pick(t, 5)}
		return
	case 2:
		s = refSpec{K: "txn"}
		return
	case 3:
		s = refSpec{K: "txnent", N: pick(t, 24)}
	default:
		s = refSpec{K: "at", N: pick(t, 10)}
	}
	s.F = drawForm(t, p)
	return
}

func drawBad(t *rapid.T) refSpec {
	k := pick(t, 11)
	s := refSpec{K: []string{"zero", "future", "sys", "noident", "nolookup", "nil", "gap", "ident", "", "near", "beside"}[k], N: pick(t, 20)}
	if s.K == "beside" {
		s.N, s.F = pick(t, 320), pick(t, 8)
	}
	if s.K == "near" {
		s.F = pick(t, 24)
		s.N = pick(t, 60)
	}
	if s.K == "sys" || s.K == "nolookup" {
		s.F = pick(t, 4)
	}
	if s.K == "future" {
		s.N = []int{0, 1, 2, 1000, 1 << 40}[pick(t, 5)]
	}
	if s.K == "ident" {
		s.N = 40 + pick(t, 15)
	}
	return s
}

func drawAttr(t *rapid.T, p *profile) refSpec {
	if p.broken(t) {
		return drawBad(t)
	}
	if choose(t, 95, 5) == 1 {
		return refSpec{K: "sysat", N: 1 + pick(t, 2), F: drawForm(t, p)}
	}
	return refSpec{K: "at", N: pick(t, 12), F: drawForm(t, p)}
}

func drawVal(t *rapid.T, p *profile) (v valSpec) {
	if p.broken(t) {
		switch choose(t, 3, 1, 2) {
		case 0:
			v.K = "wrong"
		case 1:
			v.K = "nil"
		case 2:
			return valSpec{K: "ref", R: drawBad(t)}
		}
	}
	n := 4
	if chance(t, 40) {
		n = 28
	}
	if chance(t, 8) && p.pool == 0 {
		v.N, n = 100, 1<<20
	}
	if p.pool > 0 && n > p.pool {
		n = p.pool
	}
	v.N += pick(t, n)
	if v.K == "" && chance(t, 5) {
		v.K, v.N = "beside", pick(t, 320)
	}
	v.R = drawEnt(t, p)
	if v.R.K == "txn" {
		v.R = refSpec{N: 0}
	}
	return
}

func drawIdent(t *rapid.T, p *profile) int {
	if p.sysIdents > 0 && chance(t, p.sysIdents) {
		return 40 + pick(t, 15)
	}
	if chance(t, 20) {
		return pick(t, 8)
	}
	return 20 + pick(t, 6)
}

func drawDecl(t *rapid.T, p *profile, fixedIdent int) (d declSpec) {
	d.Ident = fixedIdent
	if fixedIdent < 0 {
		d.Ident = []int{pick(t, 12), pick(t, 12), drawIdent(t, p)}[pick(t, 3)]
	}
	switch {
	case chance(t, p.refs):
		d.Type = 0
	case len(p.types) > 0:
		d.Type = p.types[pick(t, len(p.types))]
	default:
		d.Type = 1 + pick(t, 5)
	}
	switch {
	case chance(t, p.many):
		d.Card = 2
	case chance(t, 30):
		d.Card = 1
	}
	if chance(t, p.unique) {
		d.Unique = 1 + choose(t, 2, 1)
	}
	if chance(t, 20) {
		d.Order = 1 + pick(t, 100)
	}
	return
}

func drawEcho(t *rapid.T, p *profile) (c claimSpec) {
	c.K, c.N = "echo", pick(t, 300)
	c.E = refSpec{N: pick(t, 6), F: drawForm(t, p)}
	c.A = refSpec{K: "at", N: pick(t, 12), F: drawForm(t, p)}
	c.V = drawVal(t, p)
	c.R = chance(t, 30)
	return
}

// drawCrowd makes a large request, most of which is not remarkable.
func drawCrowd(t *rapid.T, p *profile, claims *rapid.Generator[claimSpec]) (s stepSpec) {
	crowd := claimSpec{K: "crowd", N: 2 + pick(t, []int{20, 40, 150}[pick(t, 3)]), A: refSpec{K: "at", N: pick(t, 12), F: drawForm(t, p)}, V: valSpec{N: []int{0, pick(t, 300)}[pick(t, 2)]}}
	if chance(t, 60) {
		crowd.E.K = "tmp"
		if chance(t, 12+p.identClaims/2) {
			crowd.A = refSpec{K: "sysat"}
			crowd.N *= 2
		}
	} else {
		crowd.E.N, crowd.E.F = pick(t, 12), drawForm(t, p)
		crowd.R = chance(t, 10)
	}
	s.Claims = append(s.Claims, crowd)
	for i := pick(t, 4); i > 0; i-- {
		s.Claims = append(s.Claims, drawEcho(t, p))
	}
	if chance(t, 70) {
		s.Claims = append(s.Claims, rapid.SliceOfN(claims, 1, 3).Draw(t, "claims")...)
	}
	if chance(t, 25) {
		e := refSpec{K: "txn"}
		s.Claims = append(s.Claims, claimSpec{E: e, A: refSpec{K: "at", N: pick(t, 12)}, V: drawVal(t, p)})
	}
	if chance(t, 25) {
		s.Order = 1 + pick(t, 1000)
	}
	return
}

func (p *profile) claimGen() *rapid.Generator[claimSpec] {
	return rapid.Custom(func(t *rapid.T) (c claimSpec) {
		if p.bad > 30 && chance(t, p.bad/6) {
			c.K = "offend"
			c.N, c.R = pick(t, 400), chance(t, 40)
			switch pick(t, 4) {
			case 0:
				c.E = drawBad(t)
			case 1:
				c.A = drawBad(t)
			case 2:
				c.V = valSpec{K: "ref", R: drawBad(t)}
			default:
				c.V = valSpec{K: []string{"wrong", "nil", "ref"}[choose(t, 5, 1, 3)], N: pick(t, 40), R: drawEnt(t, p)}
			}
			return
		}
		if chance(t, 3) {
			return drawEcho(t, p)
		}
		if chance(t, 1+p.chains/2) {
			c.K, c.N, c.R = "via", pick(t, 200), chance(t, 40)
			c.E = refSpec{N: pick(t, 5), F: drawForm(t, p)}
			c.A.F = drawForm(t, p)
			c.V.N = pick(t, 5)
			if chance(t, 20) {
				c.V.K, c.V.N = "beside", pick(t, 320)
			}
			return
		}
		switch choose(t, p.claims[:]...) {
		case 0:
			c.E = drawEnt(t, p)
			if chance(t, p.identClaims) {
				c.A = refSpec{K: "sysat", F: drawForm(t, p)}
				c.V.N = drawIdent(t, p)
			} else {
				c.A = drawAttr(t, p)
				c.V = drawVal(t, p)
			}
			c.R = chance(t, p.retract/2)
		case 1:
			c.K = "held"
			c.N = pick(t, 40)
			c.E.F, c.A.F = drawForm(t, p), drawForm(t, p)
			c.V.R.F = drawForm(t, p)
			c.R = chance(t, 30+p.retract)
		case 2:
			c.K = "swap"
			c.N = pick(t, 40)
			c.E.F, c.A.F = drawForm(t, p), drawForm(t, p)
			c.V = drawVal(t, p)
			c.R = chance(t, p.retract/3)
		case 3:
			c.K = "steal"
			c.N = pick(t, 40)
			c.E = drawEnt(t, p)
			c.A.F = drawForm(t, p)
		case 5:
			c.K = "def"
			c.N = pick(t, 60)
			c.E.F, c.A.F = drawForm(t, p), drawForm(t, p)
			c.V.R.F = drawForm(t, p)
			c.R = chance(t, 50)
		default:
			c.K = "decl"
			d := drawDecl(t, p, -1)
			if p.bad > 0 && chance(t, 15) {
				switch pick(t, 4) {
				case 0:
					d.Omit = 1 + pick(t, 3)
				case 1:
					d.Type = 100 + pick(t, 25)
				case 2:
					d.Card = 3 + pick(t, 20)
				case 3:
					d.Unique = 3 + pick(t, 20)
				}
			} else if chance(t, 20) {
				d.Type += 54
			}
			if p.retract > 0 && chance(t, 6) {
				d.Undo = 1 + pick(t, 4)
			}
			c.D = &d
			c.N = drawForm(t, p)
			switch choose(t, 70, 15, 15) {
			case 0:
				c.E = refSpec{K: "tmp", N: 1000 + pick(t, 4)}
			case 1:
				c.E = refSpec{K: "at", N: pick(t, 10), F: drawForm(t, p)}
			case 2:
				c.E = drawEnt(t, p)
			}
		}
		if (c.K == "held" || c.K == "swap" || c.K == "def") && p.broken(t) {
			// A datum held, but for one element.
			switch pick(t, 4) {
			case 0:
				c.E = drawBad(t)
			case 1:
				c.A = drawBad(t)
			default:
				c.V = valSpec{K: []string{"ref", "ref", "wrong", "nil"}[pick(t, 4)], N: pick(t, 5), R: drawBad(t)}
			}
		}
		return
	})
}

func (p *profile) queryGen() *rapid.Generator[querySpec] {
	return rapid.Custom(func(t *rapid.T) (q querySpec) {
		if chance(t, 55) {
			q.N = 1 + pick(t, 120)
			q.M = pick(t, 512)
			return
		}
		bad := *p
		bad.bad = max(p.bad, 80)
		bad.forms = max(p.forms, 30)
		if chance(t, 60) {
			e := drawEnt(t, &bad)
			q.E = &e
		}
		if chance(t, 60) {
			a := drawAttr(t, &bad)
			q.A = &a
		}
		if chance(t, 60) {
			v := drawVal(t, &bad)
			q.V = &v
		}
		return
	})
}

func (p *profile) gen() func(t *rapid.T) any {
	claims := p.claimGen()
	queries := p.queryGen()
	steps := rapid.Custom(func(t *rapid.T) (s stepSpec) {
		if chance(t, p.retractEnt) {
			most := 2
			if chance(t, 5) {
				most = 10
			}
			s.Retractions = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) (r retractDef) {
				first := refSpec{N: pick(t, 12), F: drawForm(t, p)}
				switch choose(t, 84, 5, 5, 2+p.bad/10, 4) {
				case 4:
					first = refSpec{K: "txnent", N: pick(t, 20), F: drawForm(t, p)}
				case 3:
					first = drawBad(t)
				case 1:
					first = drawEnt(t, p)
				case 2:
					first = refSpec{K: []string{"at", "sys", "txnent"}[pick(t, 3)], N: pick(t, 20), F: drawForm(t, p)}
				}
				r.Refs = append(r.Refs, first)
				if chance(t, 25) {
					// Often another form of the same entity.
					second := first
					second.F = pick(t, 4)
					if chance(t, 40) {
						second = refSpec{N: pick(t, 12), F: drawForm(t, p)}
					}
					if p.broken(t) {
						second = drawBad(t)
					}
					r.Refs = append(r.Refs, second)
				}
				if p.broken(t) {
					r.Refs = nil
				}
				return
			}), max(1, most-6), most).Draw(t, "retractions")
			if chance(t, 50) {
				return
			}
		}
		if chance(t, 90) {
			s.Claims = rapid.SliceOfN(claims, 1, 1+pick(t, p.maxClaims)).Draw(t, "claims")
		}
		if len(s.Claims) > 1 && chance(t, 10) {
			s.Order = 1 + pick(t, 1000)
		}
		if p.queries > 0 && chance(t, 50) {
			s.Queries = rapid.SliceOfN(queries, 1, p.queries).Draw(t, "queries")
		}
		return
	})
	return func(t *rapid.T) any {
		c := &dbCase{Degree: []int{2, 3, 4, 8, 64}[pick(t, 5)]}
		if chance(t, 8) {
			c.Temps = 1 + pick(t, 6)
		}
		n := 2 + pick(t, 7)
		if chance(t, 3) {
			n = 0
		}
		for i := 0; i < n; i++ {
			c.Schema = append(c.Schema, drawDecl(t, p, i))
		}
		c.Steps = list(t, steps, p.maxSteps)
		if chance(t, 3) {
			// Many datums, some of which are retracted later.
			n := 20 + pick(t, 200)
			if chance(t, 30) {
				n = 300 + pick(t, 700)
			}
			bulk := claimSpec{K: "bulk", N: n, E: refSpec{N: pick(t, 6)}, A: refSpec{K: "at", N: pick(t, 12)}}
			where := pick(t, len(c.Steps)+1)
			c.Steps = append(c.Steps[:where:where], append([]stepSpec{{Claims: []claimSpec{bulk}}}, c.Steps[where:]...)...)
			if chance(t, 50) {
				// Some again.
				again := bulk
				again.N = 1 + pick(t, 30)
				step := stepSpec{Claims: []claimSpec{again}}
				for i := pick(t, 6); i > 0; i-- {
					step.Claims = append(step.Claims, claimSpec{K: "held", N: pick(t, 1000)})
				}
				c.Steps = append(c.Steps, step)
			}
			if chance(t, 50) {
				bulk.N, bulk.R = pick(t, n+1), true
				c.Steps = append(c.Steps, stepSpec{Claims: []claimSpec{bulk}})
			}
		}
		if choose(t, 985, 15) == 1 {
			// Many attributes.
			where := pick(t, len(c.Steps)+1)
			decls := claimSpec{K: "decls", N: 10 + pick(t, 90), E: refSpec{N: pick(t, 100)}}
			var use stepSpec
			for i := 0; i < 30; i++ {
				use.Claims = append(use.Claims, claimSpec{E: refSpec{K: "tmp", N: i}, A: refSpec{K: "at", N: pick(t, 120), F: drawForm(t, p)}, V: drawVal(t, p)})
			}
			c.Steps = append(c.Steps[:where:where], append([]stepSpec{{Claims: []claimSpec{decls}}, use}, c.Steps[where:]...)...)
			if chance(t, 60) {
				d := drawDecl(t, p, 14+pick(t, 4))
				c.Steps = append(c.Steps, stepSpec{Claims: []claimSpec{{K: "decl", D: &d, E: refSpec{K: "tmp", N: 1000}}}})
			}
		}
		if choose(t, 96, 4) == 1 {
			for i := 1 + pick(t, 2); i > 0; i-- {
				where := pick(t, len(c.Steps)+1)
				c.Steps = append(c.Steps[:where:where], append([]stepSpec{drawCrowd(t, p, claims)}, c.Steps[where:]...)...)
			}
		}
		if chance(t, p.chains) {
			c.Schema = append(c.Schema, declSpec{Ident: 12, Type: 0, Unique: 1}, declSpec{Ident: 13, Type: 1 + pick(t, 5), Unique: 1})
			for i := 1 + pick(t, 3); i > 0; i-- {
				step := stepSpec{}
				for j := 1 + choose(t, 2, 1); j > 0; j-- {
					step.Claims = append(step.Claims, claimSpec{K: "chain", N: pick(t, 8), E: refSpec{N: []int{0, 0, 20, 40}[pick(t, 4)]}, A: refSpec{N: pick(t, 3), F: drawForm(t, p)}, V: valSpec{N: pick(t, 2)}})
				}
				if chance(t, 30) {
					step.Claims = append(step.Claims, rapid.SliceOfN(claims, 1, 2).Draw(t, "claims")...)
				}
				if chance(t, 50) {
					step.Order = 1 + pick(t, 1000)
				}
				where := pick(t, len(c.Steps)+1)
				c.Steps = append(c.Steps[:where:where], append([]stepSpec{step}, c.Steps[where:]...)...)
			}
		}
		if len(c.Steps) > 0 && choose(t, 985, 15) == 1 {
			// Many transactions.
			c.Steps[pick(t, len(c.Steps))].Repeat = 20 + pick(t, 200)
		}
		if p.stories > 0 && chance(t, p.stories) {
			at := pick(t, len(c.Steps)+1)
			c.Steps = append(c.Steps[:at:at], append(drawStory(t, p, claims), c.Steps[at:]...)...)
		}
		return c
	}
}

// drawStory makes a request that is likely rejected, something like it that is likely accepted, and requests
// that use what the latter declared.
func drawStory(t *rapid.T, p *profile, claims *rapid.Generator[claimSpec]) (steps []stepSpec) {
	decls := func() (list []claimSpec) {
		n := 1 + pick(t, 2)
		for i := 0; i < n; i++ {
			d := drawDecl(t, p, -1)
			list = append(list, claimSpec{K: "decl", D: &d, E: refSpec{K: "tmp", N: 1000 + i}})
		}
		return
	}
	bad := stepSpec{}
	if chance(t, 75) {
		bad.Claims = decls()
	}
	if len(bad.Claims) == 0 || chance(t, 40) {
		bad.Claims = append(bad.Claims, rapid.SliceOfN(claims, 1, 3).Draw(t, "claims")...)
	}
	var offence claimSpec
	switch pick(t, 4) {
	case 0:
		offence = claimSpec{E: drawBad(t), A: refSpec{K: "at", N: pick(t, 12)}, V: valSpec{N: pick(t, 4)}}
	case 1:
		offence = claimSpec{E: refSpec{N: pick(t, 12)}, A: refSpec{K: "at", N: pick(t, 12)}, V: valSpec{K: []string{"wrong", "ref"}[pick(t, 2)], N: pick(t, 4), R: drawBad(t)}, R: chance(t, 20)}
	case 2:
		d := drawDecl(t, p, -1)
		d.Omit = 1 + pick(t, 2)
		offence = claimSpec{K: "decl", D: &d, E: refSpec{K: "tmp", N: 1000 + pick(t, 4)}}
	case 3:
		d := drawDecl(t, p, -1)
		d.Type = 100 + pick(t, 25)
		offence = claimSpec{K: "decl", D: &d, E: refSpec{K: "tmp", N: 1000 + pick(t, 4)}}
	}
	where := pick(t, len(bad.Claims)+1)
	if chance(t, 60) {
		where = len(bad.Claims)
	}
	bad.Claims = append(bad.Claims[:where:where], append([]claimSpec{offence}, bad.Claims[where:]...)...)
	steps = append(steps, bad)
	switch pick(t, 3) {
	case 0:
		// The same without the offence.
		steps = append(steps, stepSpec{Claims: append(bad.Claims[:where:where], bad.Claims[where+1:]...)})
	default:
		// Other attributes, some of which get the rejected ones' ids.
		steps = append(steps, stepSpec{Claims: decls()})
	}
	for i := 1 + pick(t, 3); i > 0; i-- {
		use := stepSpec{}
		e := refSpec{N: pick(t, 12), F: drawForm(t, p)}
		a := refSpec{K: "newat", N: pick(t, 3), F: drawForm(t, p)}
		for j := 1 + pick(t, 2); j > 0; j-- {
			if chance(t, 30) {
				e = drawEnt(t, p)
			}
			use.Claims = append(use.Claims, claimSpec{E: e, A: a, V: drawVal(t, p), R: chance(t, p.retract/2)})
		}
		steps = append(steps, use)
		// Again, with another value.
		if chance(t, 60) {
			again := use
			again.Claims = append([]claimSpec(nil), use.Claims...)
			for j := range again.Claims {
				again.Claims[j].V = drawVal(t, p)
			}
			steps = append(steps, again)
		}
	}
	return
}

// dbCheck makes a check that runs histories of the profile.
func dbCheck(p profile, opts dbOptions, rule string, nontrivial func(d *dbRun) bool) check {
	return check{
		rule:  rule,
		gen:   p.gen(),
		blank: func() any { return &dbCase{} },
		run: func(c any, r *run) {
			d := runDB(r, c.(*dbCase), opts)
			if d == nil {
				return
			}
			r.nontrivial = nontrivial(d)
			r.class(fmt.Sprintf("accepted:%d", min(d.accepted, 10)))
			if d.rejected > 0 {
				r.class("some rejected")
			}
			if d.open > 0 {
				r.class("some left open")
			}
		},
	}
}

const histories = "A case is a database history: a drawn schema (types, cardinalities, uniqueness), then steps that write drawn requests (claims on known, new, system and bogus entities by id, ident, lookup and temp id, entity retractions, declarations) and ask drawn queries; each step's outcome is compared with the reference model. "

func init() {
	p := func(edit func(p *profile)) profile {
		c := baseProfile
		edit(&c)
		return c
	}
	did := func(classes ...string) func(d *dbRun) bool {
		return func(d *dbRun) bool {
			if d.accepted < 2 {
				return false
			}
			for _, c := range classes {
				if !d.classes[c] {
					return false
				}
			}
			return true
		}
	}
	register("C03", dbCheck(p(func(p *profile) { p.bad, p.stories = 4, 15 }), dbOptions{},
		histories+"Non-trivial: at least two accepted requests and one that retracts.", func(d *dbRun) bool {
			return d.accepted >= 2 && (d.classes["trait:retract-claim"] || d.classes["trait:retraction"])
		}))
	register("C04", dbCheck(p(func(p *profile) {
		p.bad, p.queries, p.maxSteps, p.forms = 2, 12, 6, 40
		p.ents[4] = 12
	}), dbOptions{deep: true},
		histories+"Non-trivial: at least two accepted requests, and drawn queries with at least three of the eight combinations of given fields.", func(d *dbRun) bool {
			n := 0
			for mask := 0; mask < 8; mask++ {
				if d.classes[fmt.Sprintf("query-mask:%d", mask)] {
					n++
				}
			}
			return d.accepted >= 2 && n >= 3
		}))
	register("C05", dbCheck(p(func(p *profile) {
		p.bad, p.unique, p.many, p.claims = 2, 20, 45, [6]int{45, 20, 35, 2, 1, 1}
		p.queries = 1
	}), dbOptions{}, histories+"Non-trivial: at least two accepted requests with claims on both single- and many-valued attributes.", did("trait:one", "trait:many")))
	register("C06", dbCheck(p(func(p *profile) {
		p.bad, p.unique, p.pool, p.identClaims, p.sysIdents = 2, 85, 4, 15, 2
		p.claims = [6]int{50, 12, 15, 20, 1, 1}
		p.queries = 1
	}), dbOptions{}, histories+"Non-trivial: at least two accepted requests, with unique values claimed and some request rejected for taking another's value.", func(d *dbRun) bool {
		return d.accepted >= 2 && (d.classes["reject:unique-taken"] || d.classes["reject:unique-twice"] || d.classes["reject:identity-conflict"])
	}))
	register("C07", dbCheck(p(func(p *profile) {
		p.bad, p.unique, p.pool, p.refs, p.sysIdents, p.chains = 2, 75, 4, 35, 2, 12
		p.ents = [5]int{15, 75, 5, 2, 3}
		p.claims = [6]int{70, 6, 6, 15, 3, 1}
		p.queries = 0
	}), dbOptions{}, histories+"Non-trivial: at least two accepted requests with temp ids, some with identity values.", did("trait:temp", "trait:identity")))
	register("C08", dbCheck(p(func(p *profile) { p.bad, p.maxClaims, p.queries = 110, 3, 0; p.forms = 40; p.refs = 35 }), dbOptions{},
		histories+"Here many elements of the requests are broken. Non-trivial: at least one accepted request and one rejected for an unresolvable or ill-typed element.", func(d *dbRun) bool {
			for _, reason := range []string{"e-unresolved", "a-unresolved", "v-unresolved", "v-type", "v-nil", "retraction-unresolved"} {
				if d.classes["reject:"+reason] {
					return d.accepted >= 1
				}
			}
			return false
		}))
	register("C09", dbCheck(p(func(p *profile) {
		p.bad, p.claims, p.ents = 8, [6]int{30, 8, 8, 6, 40, 10}, [5]int{30, 30, 5, 2, 33}
		p.identClaims, p.sysIdents, p.queries, p.stories = 35, 8, 1, 30
		p.maxClaims = 4
	}), dbOptions{}, histories+"Non-trivial: at least two accepted requests, and claims about declared attributes.", did("trait:attr-entity", "trait:schema")))
	register("C10", dbCheck(p(func(p *profile) {
		p.bad, p.identClaims, p.sysIdents, p.queries = 60, 45, 50, 1
		p.maxClaims = 3
	}), dbOptions{}, histories+"Non-trivial: at least one accepted request, and one rejected for touching the system vocabulary.", func(d *dbRun) bool {
		return d.accepted >= 1 && (d.classes["reject:system-entity"] || d.classes["reject:system-ident"] || d.classes["reject:retraction-system"])
	}))
	register("C11", dbCheck(p(func(p *profile) {
		p.bad, p.identClaims, p.sysIdents, p.forms, p.retractEnt = 4, 60, 5, 50, 20
		p.claims = [6]int{50, 15, 15, 10, 10, 1}
		p.queries = 2
	}), dbOptions{}, histories+"Non-trivial: at least two accepted requests, with idents claimed and used as references.", did("trait:ident", "trait:ident-ref")))
	register("C12", dbCheck(p(func(p *profile) {
		p.bad, p.retractEnt, p.forms, p.refs, p.queries = 6, 65, 45, 35, 1
		p.maxClaims = 5
	}), dbOptions{}, histories+"Non-trivial: at least two accepted requests, one of them retracting an entity.", func(d *dbRun) bool {
		return d.accepted >= 2 && d.classes["trait:retraction"]
	}))
	register("C13", dbCheck(p(func(p *profile) {
		p.bad, p.unique, p.many, p.maxClaims = 0, 30, 45, 8
		p.claims = [6]int{50, 12, 30, 2, 0, 0}
		p.sysIdents, p.identClaims, p.queries = 0, 4, 1
	}), dbOptions{deep: true}, histories+"Non-trivial: at least two accepted requests.", did()))
	register("C01", dbCheck(p(func(p *profile) { p.bad = 8; p.maxSteps = 14 }), dbOptions{hold: true, mutate: true},
		histories+"Every snapshot is kept and compared again after the whole history, and requests are overwritten after they are written. Non-trivial: at least three snapshots with accepted requests after them.", func(d *dbRun) bool { return d.accepted >= 4 }))
	register("C02", dbCheck(p(func(p *profile) { p.bad, p.claims[4], p.identClaims, p.stories = 35, 12, 15, 60 }), dbOptions{twin: true},
		histories+"The accepted requests are also written to a second database that sees no rejected ones. Non-trivial: an accepted request after a rejected one of several claims.", func(d *dbRun) bool {
			return d.accepted >= 2 && d.rejected >= 1
		}))
}
