package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// Poly is a polynomial with integer coefficients over named atoms. It is the
// abstract domain for integers (dimensions, lengths, offsets, indices). Atoms
// are strings; a monomial is the sorted list of its atoms joined by "·".
type Poly struct {
	t map[string]int64
}

const monoSep = "·"

func pConst(c int64) *Poly {
	p := &Poly{t: map[string]int64{}}
	if c != 0 {
		p.t[""] = c
	}
	return p
}

func pAtom(a string) *Poly { return &Poly{t: map[string]int64{a: 1}} }

func (p *Poly) isConst() (int64, bool) {
	if len(p.t) == 0 {
		return 0, true
	}
	if len(p.t) == 1 {
		if c, ok := p.t[""]; ok {
			return c, true
		}
	}
	return 0, false
}

func pAdd(a, b *Poly) *Poly { return pLin(a, b, 1) }
func pSub(a, b *Poly) *Poly { return pLin(a, b, -1) }

func pLin(a, b *Poly, k int64) *Poly {
	r := make(map[string]int64, len(a.t)+len(b.t))
	for m, c := range a.t {
		r[m] = c
	}
	for m, c := range b.t {
		v := r[m] + k*c
		if v == 0 {
			delete(r, m)
		} else {
			r[m] = v
		}
	}
	return &Poly{r}
}

func pScale(a *Poly, k int64) *Poly {
	if k == 0 {
		return pConst(0)
	}
	r := make(map[string]int64, len(a.t))
	for m, c := range a.t {
		r[m] = c * k
	}
	return &Poly{r}
}

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	s := append(append([]string{}, monoAtoms(a)...), monoAtoms(b)...)
	sort.Strings(s)
	return strings.Join(s, monoSep)
}

var monoCache sync.Map

// splitMono splits at the separators outside brackets: an atom may carry the
// key of a polynomial.
func splitMono(m string) []string {
	var out []string
	depth, from := 0, 0
	for i, r := range m {
		switch r {
		case '⟨', '(', '{', '[', '⌊':
			depth++
		case '⟩', ')', '}', ']', '⌋':
			depth--
		case '·':
			if depth == 0 {
				out = append(out, m[from:i])
				from = i + len(monoSep)
			}
		}
	}
	return append(out, m[from:])
}

// monoAtoms lists the atoms of a monomial. The result must not be modified.
func monoAtoms(m string) []string {
	if m == "" {
		return nil
	}
	if v, ok := monoCache.Load(m); ok {
		return v.([]string)
	}
	s := splitMono(m)
	monoCache.Store(m, s)
	return s
}

type divKey struct{ m, d string }
type divRes struct {
	q  string
	ok bool
}

var divCache sync.Map

// monoDiv returns m/d when d divides m.
func monoDiv(m, d string) (string, bool) {
	if d == "" {
		return m, true
	}
	if m == d {
		return "", true
	}
	if len(d) > len(m) {
		return "", false
	}
	if v, ok := divCache.Load(divKey{m, d}); ok {
		r := v.(divRes)
		return r.q, r.ok
	}
	q, ok := monoDivSlow(m, d)
	divCache.Store(divKey{m, d}, divRes{q, ok})
	return q, ok
}

func monoDivSlow(m, d string) (string, bool) {
	ma := monoAtoms(m)
	for _, x := range monoAtoms(d) {
		found := -1
		for i, y := range ma {
			if x == y {
				found = i
				break
			}
		}
		if found < 0 {
			return "", false
		}
		ma = append(append([]string{}, ma[:found]...), ma[found+1:]...)
	}
	return strings.Join(ma, monoSep), true
}

func pMul(a, b *Poly) *Poly {
	r := map[string]int64{}
	for m1, c1 := range a.t {
		for m2, c2 := range b.t {
			m := monoMul(m1, m2)
			v := r[m] + c1*c2
			if v == 0 {
				delete(r, m)
			} else {
				r[m] = v
			}
		}
	}
	return &Poly{r}
}

func pMulMono(a *Poly, m string, k int64) *Poly {
	r := make(map[string]int64, len(a.t))
	for m1, c := range a.t {
		r[monoMul(m1, m)] = c * k
	}
	return &Poly{r}
}

func (p *Poly) monos() []string {
	ms := make([]string, 0, len(p.t))
	for m := range p.t {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool {
		di, dj := len(monoAtoms(ms[i])), len(monoAtoms(ms[j]))
		if di != dj {
			return di > dj
		}
		return ms[i] < ms[j]
	})
	return ms
}

func (p *Poly) key() string {
	if len(p.t) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, m := range p.monos() {
		c := p.t[m]
		if m == "" {
			if i > 0 && c > 0 {
				sb.WriteByte('+')
			}
			fmt.Fprintf(&sb, "%d", c)
			continue
		}
		switch {
		case c == 1:
			if i > 0 {
				sb.WriteByte('+')
			}
		case c == -1:
			sb.WriteByte('-')
		default:
			if i > 0 && c > 0 {
				sb.WriteByte('+')
			}
			fmt.Fprintf(&sb, "%d", c)
			sb.WriteString(monoSep)
		}
		sb.WriteString(m)
	}
	return sb.String()
}

func (p *Poly) String() string { return p.key() }

func pEq(a, b *Poly) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for m, c := range a.t {
		if b.t[m] != c {
			return false
		}
	}
	return true
}

func (p *Poly) hasAtom(a string) bool {
	for m := range p.t {
		for _, x := range monoAtoms(m) {
			if x == a {
				return true
			}
		}
	}
	return false
}

// substAtom replaces an atom by a polynomial everywhere.
func (p *Poly) substAtom(a string, by *Poly) *Poly {
	if !p.hasAtom(a) {
		return p
	}
	r := pConst(0)
	for m, c := range p.t {
		term := pConst(c)
		for _, x := range monoAtoms(m) {
			if x == a {
				term = pMul(term, by)
			} else {
				term = pMul(term, pAtom(x))
			}
		}
		r = pAdd(r, term)
	}
	return r
}

// Facts is a set of assumptions about atoms made along one abstract path.
type Facts struct {
	neg   map[string]bool  // atoms that may be negative (default: non-negative)
	rules map[string]*Poly // monomial -> replacement
	order []string         // rule insertion order
	ges   []*Poly          // known p >= 0
	nes   []*Poly          // known p != 0
	pos   map[string]bool  // atoms known to be at least 1
	memo  map[string]bool  // geZero results for the current facts
	bad   bool             // contradiction found
}

func newFacts() *Facts {
	return &Facts{neg: map[string]bool{}, rules: map[string]*Poly{}, pos: map[string]bool{}}
}

func (f *Facts) norm(p *Poly) *Poly {
	if len(f.rules) == 0 {
		return p
	}
	for iter := 0; iter < 200; iter++ {
		changed := false
		for _, m := range p.monos() {
			if m == "" {
				continue
			}
			for _, lm := range f.order {
				rep := f.rules[lm]
				if rep == nil {
					continue
				}
				if q, ok := monoDiv(m, lm); ok {
					c := p.t[m]
					np := pLin(p, &Poly{map[string]int64{m: 1}}, -c)
					p = pAdd(np, pMulMono(rep, q, c))
					changed = true
					break
				}
			}
			if changed {
				break
			}
		}
		if !changed {
			return p
		}
	}
	return p
}

// nonneg reports whether p is syntactically non-negative.
func (f *Facts) nonneg(p *Poly) bool {
	if f.nonnegPlain(p) {
		return true
	}
	if len(f.pos) == 0 {
		return false
	}
	// substitute a = 1 + a' for atoms known to be positive
	var ps []string
	seen := map[string]bool{}
	for m := range p.t {
		for _, a := range monoAtoms(m) {
			if f.pos[a] && !seen[a] {
				seen[a] = true
				ps = append(ps, a)
			}
		}
	}
	if len(ps) == 0 || len(ps) > 6 {
		return false
	}
	q := p
	for _, a := range ps {
		q = q.substAtom(a, &Poly{map[string]int64{a: 1, "": 1}})
	}
	return f.nonnegPlain(q)
}

func (f *Facts) nonnegPlain(p *Poly) bool {
	for m, c := range p.t {
		if c < 0 {
			return false
		}
		for _, a := range monoAtoms(m) {
			if f.neg[a] {
				// even powers are not handled; be conservative
				return false
			}
		}
	}
	return true
}

// geZero reports whether p >= 0 is entailed.
func (f *Facts) geZero(p *Poly) bool {
	p = f.norm(p)
	if f.nonneg(p) {
		return true
	}
	if len(f.ges) == 0 {
		return false
	}
	if f.memo == nil {
		f.memo = map[string]bool{}
	}
	k := p.key()
	if r, ok := f.memo[k]; ok {
		return r
	}
	r := f.geZeroN(p, 3)
	f.memo[k] = r
	return r
}

func (f *Facts) geZeroN(p *Poly, depth int) bool {
	if f.nonneg(p) {
		return true
	}
	if depth == 0 {
		return false
	}
	// pick facts that cancel a negative monomial
	var negs []string
	for _, m := range p.monos() {
		if p.t[m] < 0 {
			negs = append(negs, m)
		}
	}
	if len(negs) == 0 {
		// only possibly-negative atoms
		for _, m := range p.monos() {
			negs = append(negs, m)
		}
	}
	for _, nm := range negs {
		for _, g := range f.ges {
			for gm, gc := range g.t {
				if gm == "" && nm != "" {
					continue
				}
				q, ok := monoDiv(nm, gm)
				if !ok {
					continue
				}
				okq := true
				for _, a := range monoAtoms(q) {
					if f.neg[a] {
						okq = false
					}
				}
				if !okq {
					continue
				}
				if gc >= 0 && p.t[nm] < 0 {
					continue
				}
				k := int64(1)
				if gc < 0 && p.t[nm]%gc == 0 {
					k = p.t[nm] / gc
				}
				if k < 1 {
					continue
				}
				np := pLin(p, pMulMono(g, q, 1), -k)
				if f.geZeroN(f.norm(np), depth-1) {
					return true
				}
				if k > 1 && gm == "" {
					np := pLin(p, pMulMono(g, q, 1), -1)
					if f.geZeroN(f.norm(np), depth-1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (f *Facts) addGE(p *Poly) {
	p = f.norm(p)
	if c, ok := p.isConst(); ok {
		if c < 0 {
			f.bad = true
		}
		return
	}
	if f.geZero(pSub(pScale(p, -1), pConst(1))) {
		f.bad = true
		return
	}
	for _, g := range f.ges {
		if pEq(g, p) {
			return
		}
	}
	if f.geZeroN(pScale(p, -1), 2) {
		// p >= 0 and p <= 0
		f.addEQ(p)
		return
	}
	f.memo = nil
	if a := atomOf(p); len(p.t) == 1 && p.t[a] > 0 && f.neg[a] {
		delete(f.neg, a)
		f.checkNes()
		return
	}
	if len(p.t) == 2 && p.t[""] < 0 {
		for m, c := range p.t {
			if m != "" && c > 0 && f.neg[m] {
				delete(f.neg, m)
			}
		}
	}
	if len(p.t) == 2 && p.t[""] == -1 {
		for m, c := range p.t {
			if m != "" && c == 1 && len(monoAtoms(m)) == 1 && !f.neg[m] {
				f.pos[m] = true
				f.checkNes()
				return
			}
		}
	}
	f.ges = append(f.ges, p)
	f.factors(p)
	f.checkNes()
}

// factors: when a product is at least 1, so are its factors (none is negative),
// and what is 0 when multiplied by one of them is 0.
func (f *Facts) factors(p *Poly) {
	if p.t[""] >= 0 {
		return
	}
	top := ""
	for m, c := range p.t {
		for _, a := range monoAtoms(m) {
			if f.neg[a] {
				return
			}
		}
		if c > 0 {
			if top != "" {
				return
			}
			top = m
		}
	}
	for _, a := range monoAtoms(top) {
		if f.pos[a] {
			continue
		}
		f.pos[a] = true
		f.memo = nil
		for _, lm := range append([]string{}, f.order...) {
			r := f.rules[lm]
			if r == nil {
				continue
			}
			c, ok := r.isConst()
			if q, div := monoDiv(lm, a); ok && c == 0 && div && q != "" {
				f.addEQ(&Poly{map[string]int64{q: 1}})
			}
		}
	}
}

func (f *Facts) checkNes() {
	for _, n := range f.nes {
		n = f.norm(n)
		if c, ok := n.isConst(); ok && c == 0 {
			f.bad = true
			return
		}
	}
}

func (f *Facts) addNE(p *Poly) {
	p = f.norm(p)
	if c, ok := p.isConst(); ok {
		if c == 0 {
			f.bad = true
		}
		return
	}
	// p != 0 and p >= 0 entail p >= 1 (and symmetrically)
	if f.geZero(p) {
		f.addGE(pSub(p, pConst(1)))
		return
	}
	if f.geZero(pScale(p, -1)) {
		f.addGE(pSub(pScale(p, -1), pConst(1)))
		return
	}
	f.nes = append(f.nes, p)
}

// eqZero: 1 = entailed zero, -1 = entailed non-zero, 0 = unknown.
func (f *Facts) eqZero(p *Poly) int {
	p = f.norm(p)
	if c, ok := p.isConst(); ok {
		if c == 0 {
			return 1
		}
		return -1
	}
	for _, n := range f.nes {
		n = f.norm(n)
		if pEq(n, p) || pEq(pScale(n, -1), p) {
			return -1
		}
	}
	if f.geZero(pSub(p, pConst(1))) || f.geZero(pSub(pScale(p, -1), pConst(1))) {
		return -1
	}
	if f.geZero(p) && f.geZero(pScale(p, -1)) {
		return 1
	}
	return 0
}

// addEQ assumes p == 0.
func (f *Facts) addEQ(p *Poly) {
	p = f.norm(p)
	if c, ok := p.isConst(); ok {
		if c != 0 {
			f.bad = true
		}
		return
	}
	if f.eqZero(p) == -1 {
		f.bad = true
		return
	}
	// a product of non-negative atoms equal to 1 forces every factor to 1
	if len(p.t) == 2 {
		c0, has0 := p.t[""]
		if has0 {
			for m, c := range p.t {
				if m == "" {
					continue
				}
				if c*1 == -c0 && (c == 1 || c == -1) {
					as := monoAtoms(m)
					all := len(as) > 1
					for _, a := range as {
						if f.neg[a] {
							all = false
						}
					}
					if all {
						for _, a := range as {
							f.addEQ(pSub(pAtom(a), pConst(1)))
						}
						return
					}
				}
			}
		}
	}
	// common factor: q*(r)=0 with q known non-zero
	if len(p.t) >= 1 {
		var common []string
		first := true
		for m := range p.t {
			as := monoAtoms(m)
			if first {
				common = as
				first = false
				continue
			}
			var nc []string
			for _, a := range common {
				for i, b := range as {
					if a == b {
						nc = append(nc, a)
						as = append(append([]string{}, as[:i]...), as[i+1:]...)
						break
					}
				}
			}
			common = nc
		}
		for _, a := range common {
			if f.eqZero(pAtom(a)) == -1 {
				np := map[string]int64{}
				for m, c := range p.t {
					q, _ := monoDiv(m, a)
					np[q] = c
				}
				f.addEQ(&Poly{np})
				return
			}
		}
	}
	lead := f.pickLead(p)
	f.memo = nil
	if lead == "" {
		f.ges = append(f.ges, p, pScale(p, -1))
		return
	}
	c := p.t[lead]
	rest := pLin(p, &Poly{map[string]int64{lead: 1}}, -c)
	f.setRule(lead, pScale(rest, -c)) // c is ±1
}

func (f *Facts) pickLead(p *Poly) string {
	best := ""
	bestScore := -1
	for _, m := range p.monos() {
		if m == "" {
			continue
		}
		c := p.t[m]
		if c != 1 && c != -1 {
			continue
		}
		as := monoAtoms(m)
		ok := true
		for m2 := range p.t {
			if m2 == m {
				continue
			}
			if _, d := monoDiv(m2, m); d {
				ok = false
			}
		}
		if !ok {
			continue
		}
		score := 0
		if len(as) == 1 {
			score = 1000
			if strings.Contains(as[0], "?") || strings.Contains(as[0], "φ") {
				score += 500 // prefer eliminating synthetic atoms
			}
		} else {
			score = len(as) * 10
		}
		if score > bestScore || (score == bestScore && m > best) {
			best, bestScore = m, score
		}
	}
	return best
}

func (f *Facts) setRule(lead string, rep *Poly) {
	f.memo = nil
	f.rules[lead] = rep
	f.order = append(f.order, lead)
	// re-normalise other rules and facts
	var again []*Poly
	for _, lm := range append([]string{}, f.order...) {
		if lm == lead {
			continue
		}
		r := f.rules[lm]
		if r == nil {
			continue
		}
		if _, div := monoDiv(lm, lead); div {
			delete(f.rules, lm)
			again = append(again, pSub(&Poly{map[string]int64{lm: 1}}, r))
			continue
		}
		f.rules[lm] = f.norm(r)
	}
	var ord []string
	for _, lm := range f.order {
		if f.rules[lm] != nil {
			ord = append(ord, lm)
		}
	}
	f.order = ord
	ges := f.ges
	f.ges = nil
	for _, g := range ges {
		ng := f.norm(g)
		if c, ok := ng.isConst(); ok {
			if c < 0 {
				f.bad = true
			}
			continue
		}
		f.ges = append(f.ges, ng)
	}
	// non-negativity of the eliminated atom survives as a fact
	if len(monoAtoms(lead)) >= 1 {
		nn := true
		for _, a := range monoAtoms(lead) {
			if f.neg[a] {
				nn = false
			}
		}
		if nn {
			r := f.norm(rep)
			if c, ok := r.isConst(); ok {
				if c < 0 {
					f.bad = true
				}
			} else if !f.nonneg(r) {
				f.ges = append(f.ges, r)
			}
			if f.pos[lead] {
				delete(f.pos, lead)
				f.addGE(pSub(r, pConst(1)))
			}
		}
	}
	for _, a := range again {
		f.addEQ(a)
	}
	f.checkNes()
}
