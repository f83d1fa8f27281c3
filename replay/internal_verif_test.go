package semnet

import (
	"fmt"
	"strings"

	"github.com/mem-memov/semnet/internal/concrete/bit"
	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/detail"
	"github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/phrase"
	"github.com/mem-memov/semnet/internal/concrete/remark"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/concrete/word"
)

type vRepos struct {
	class     *class.Repository
	bit       *bit.Repository
	character *character.Repository
	word      *word.Repository
	phrase    *phrase.Repository
	detail    *detail.Repository
}

func vOpen(s *vStorage) *vRepos {
	r := &vRepos{}
	r.class = class.NewRepository(s)
	r.bit = bit.NewRepository(s, r.class)
	r.character = character.NewRepository(s, r.class, r.bit)
	r.word = word.NewRepository(s, r.class, r.character)
	r.phrase = phrase.NewRepository(s, r.class, r.word)
	r.detail = detail.NewRepository(s, r.class, r.phrase)
	return r
}

func init() {
	vScenarios["C07 words"] = func(v *vRun) { v.atoms(vGood) }
	vScenarios["random C07"] = func(v *vRun) {
		var t []string
		for k := 0; k < 12; k++ {
			t = append(t, v.text())
		}
		v.atoms(t)
	}
	vScenarios["C07 wide"] = func(v *vRun) {
		var t []string
		for k := 0; k < 130; k++ {
			t = append(t, "w"+string(rune(0x4e00+k*37)), "p "+string(rune('a'+k)), strings.Repeat("z", k+1))
		}
		v.atoms(t)
	}
	vScenarios["C08 wide"] = func(v *vRun) {
		var t []string
		for k := 0; k < 45; k++ {
			t = append(t, string(rune('a'+k%26))+strings.Repeat("y", k/26))
		}
		v.details(t)
	}
	vScenarios["C08 details"] = func(v *vRun) { v.details(vGood[:12]) }
	vScenarios["random C08"] = func(v *vRun) {
		var t []string
		for k := 0; k < 5; k++ {
			t = append(t, v.text())
		}
		v.details(t)
	}
	vScenarios["C09 runes"] = func(v *vRun) { v.runes() }
	vScenarios["random C09"] = func(v *vRun) {
		v.scenario("random runes", func() {
			var l []rune
			for k := 0; k < 200; k++ {
				l = append(l, rune(v.rnd.Int31()>>uint(v.rnd.Intn(31))))
			}
			v.runeList(vOpen(vNew(nil)), l)
		})
	}
	vScenarios["C16 opening"] = func(v *vRun) { v.initialise() }
	vScenarios["random C16"] = func(v *vRun) { v.agree() }
	for _, p := range []string{"C17", "C18", "C19", "C07", "C08", "C16"} {
		vScenarios["random "+p+" entities"] = func(v *vRun) {
			v.scenario("entities of a random history", func() {
				s := vNew(nil)
				if v.rnd.Intn(8) == 0 {
					s = vClew()
				}
				w := v.world(s)
				for k := v.rnd.Intn(8) + 1; k > 0; k-- {
					w.try(w.anyCall())
					if v.rnd.Intn(6) == 0 {
						w.reopen()
					}
				}
				v.entities(w)
			})
		}
		vScenarios[p+" entities"] = func(v *vRun) {
			for k, h := range vHistories() {
				h := h
				v.scenario(fmt.Sprintf("entities of history %d", k), func() {
					w := v.world(vNew(nil))
					for _, c := range h {
						w.try(c)
						v.entities(w)
					}
				})
			}
			v.scenario("refused texts", func() {
				w := v.small()
				for _, b := range vBad {
					for _, c := range v.badCalls(w, b, "good") {
						w.do(c)
					}
				}
				v.members(w, false)
				v.readBack(w)
				v.onlyRemarks(w)
			})
			v.scenario("interrupted calls", func() {
				base := v.small()
				for _, c := range []vCall{{"fact", 1, "n o", "m"}, {"child", 3, "nn", "m"}, {"remark", 2, "", "mm"}, {"story", 0, "nm", "mn"}} {
					x := base.clone()
					x.s.arm(-1)
					x.do(c)
					total := x.s.ops
					for k := 1; k <= total; k += 1 + v.rnd.Intn(3) {
						w := base.clone()
						w.s.arm(-1, k)
						v.log("%s with failing operation %d", c, k)
						w.do(c)
						w.s.disarm()
						v.onlyRemarks(w)
						v.readBackOf(w, base.s)
						v.members(w, false)
						w.do(c)
						v.members(w, false)
						v.trace = v.trace[:0]
					}
				}
			})
		}
	}
}

func (v *vRun) must(prop, what string, err error) {
	if err != nil {
		v.log("%s: error %v", what, err)
		v.fail(prop, "%s: %v", what, err)
		panic(vAbort{})
	}
}

// nodes of stored values: identified by all their identifiers
func (s *vStorage) chain(n uint, k int) []uint {
	for j := 0; j < k; j++ {
		p, _ := s.refs(n)
		if p == 0 {
			break
		}
		n = p
	}
	r := []uint{n}
	for len(r) < k {
		_, m := s.refs(n)
		if m == 0 {
			break
		}
		n = m
		r = append(r, n)
	}
	return r
}

func (s *vStorage) count() (r [9]int) {
	for k := uint(1); k <= 8; k++ {
		r[k] = len(s.sources(k))
	}
	return
}

// atoms: the same value gives the same entity, different values give different ones
func (v *vRun) atoms(texts []string) {
	v.scenario("equal values", func() {
		s := vNew(nil)
		a, b := vOpen(s), vOpen(s)
		ids := map[string]uint{}
		back := map[uint]string{}
		for pass := 0; pass < 2; pass++ {
			for i, t := range texts {
				r := a
				if (i+pass)%2 == 1 {
					r = b
				}
				if pass == 1 && i%5 == 0 {
					r = vOpen(s)
				}
				check := func(kind, val string, id uint, before [9]int) {
					key := kind + ":" + val
					v.log("provide %s %q -> %d", kind, val, id)
					if old, ok := ids[key]; ok {
						if old != id {
							v.fail("C07", "%s %q was stored as %d and is now %d", kind, val, old, id)
						}
						if s.count() != before {
							v.fail("C07", "providing %s %q again creates entities", kind, val)
						}
					}
					if x, ok := back[id]; ok && x != key {
						v.fail("C07", "%s %q and %s have the same entity %d", kind, val, x, id)
					}
					ids[key], back[id] = id, key
				}
				for _, w := range strings.Split(t, " ") {
					for _, c := range w {
						n := s.count()
						v.guard("Provide", func() {
							x, err := r.character.Provide(c)
							v.must("C07", "Provide", err)
							d, err := x.Extract()
							v.must("C07", "Extract", err)
							if d != c {
								v.fail("C07", "character %d reads as %d", c, d)
							}
							// the identifier of the character: what it marks words with
							check("character", string(c), v.charID(s, x), n)
						})
					}
					n := s.count()
					v.guard("Provide", func() {
						x, err := r.word.Provide(w)
						v.must("C07", "Provide", err)
						check("word", w, v.wordID(s, x), n)
					})
				}
				n := s.count()
				v.guard("Provide", func() {
					x, err := r.phrase.Provide(t)
					v.must("C07", "Provide", err)
					check("phrase", t, v.phraseID(s, x), n)
				})
			}
		}
	})
}

// identifiers are read off the edge an entity makes to a probe node
func (v *vRun) probe(s *vStorage, point func(n uint) error) uint {
	s.quiet = true
	defer func() { s.quiet = false }()
	n, _ := s.Create()
	if err := point(n); err != nil {
		return 0
	}
	in, _ := s.ReadSources(n)
	if len(in) != 1 {
		return 0
	}
	s.Disconnect(in[0], n)
	return in[0]
}

func (v *vRun) charID(s *vStorage, x interface{ PointToWord(uint) error }) uint {
	return v.probe(s, x.PointToWord)
}

func (v *vRun) wordID(s *vStorage, x interface{ PointToPhrase(uint) error }) uint {
	return v.probe(s, x.PointToPhrase)
}

func (v *vRun) phraseID(s *vStorage, x interface{ AddTargetDetail(uint) error }) uint {
	return v.probe(s, x.AddTargetDetail)
}

func (v *vRun) details(texts []string) {
	v.scenario("equal details", func() {
		s := vNew(nil)
		rs := []*vRepos{vOpen(s), vOpen(s)}
		ids := map[[2]string]uint{}
		back := map[uint][2]string{}
		for pass := 0; pass < 2; pass++ {
			for i, o := range texts {
				for j, p := range texts {
					if len(texts) > 8 && (i*3+j)%5 != 0 && i != j {
						continue
					}
					r := rs[(i+j+pass)%2]
					n := s.count()
					key := [2]string{o, p}
					v.guard("Provide", func() {
						d, err := r.detail.Provide(o, p)
						v.must("C08", fmt.Sprintf("Provide(%q, %q)", o, p), err)
						a, b, err := d.GetObjectAndProperty()
						v.must("C08", "GetObjectAndProperty", err)
						if a != o || b != p {
							v.fail("C08", "detail of %q, %q reports %q, %q", o, p, a, b)
						}
						id := v.probe(s, d.PointToRemark)
						v.log("provide detail %q, %q -> %d", o, p, id)
						if old, ok := ids[key]; ok {
							if old != id {
								v.fail("C08", "detail %q, %q was stored as %d and is now %d", o, p, old, id)
							}
							if s.count() != n {
								v.fail("C08", "providing detail %q, %q again creates entities", o, p)
							}
						}
						if x, ok := back[id]; ok && x != key {
							v.fail("C08", "details %q and %q are one entity %d", key, x, id)
						}
						ids[key], back[id] = id, key
						if f, err := r.detail.Fetch(id); err == nil {
							a, b, err := f.GetObjectAndProperty()
							if err != nil || a != o || b != p {
								v.fail("C08", "detail of %q, %q fetched again reports %q, %q, %v", o, p, a, b, err)
							}
						} else {
							v.fail("C08", "Fetch(%d): %v", id, err)
						}
					})
				}
			}
		}
	})
}

func (v *vRun) runeList(r *vRepos, l []rune) {
	for _, c := range l {
		v.guard(fmt.Sprintf("Provide(%d)", c), func() {
			a, err := r.character.Provide(c)
			if c < 0 {
				if err == nil {
					v.fail("C09", "negative rune %d is stored", c)
				}
				return
			}
			if err != nil {
				v.fail("C09", "rune %d is refused: %v", c, err)
				return
			}
			d, err := a.Extract()
			if err != nil || d != c {
				v.fail("C09", "rune %d is read as %d, %v", c, d, err)
			}
		})
	}
}

func (v *vRun) runes() {
	v.scenario("all small runes", func() {
		var l []rune
		for c := rune(0); c < 2100; c++ {
			l = append(l, c)
		}
		v.runeList(vOpen(vNew(nil)), l)
	})
	v.scenario("runes around powers of two", func() {
		var l []rune
		for k := uint(0); k < 31; k++ {
			for d := -2; d < 3; d++ {
				l = append(l, rune(int64(1)<<k)+rune(d))
			}
		}
		l = append(l, 1<<31-1, 1<<31-2, 0x10ffff, -1, -2, -1<<31, -1<<31+1, 0x55555555, 0x2aaaaaaa)
		r := vOpen(vNew(nil))
		v.runeList(r, l)
		v.runeList(r, l)
	})
	v.scenario("bits", func() {
		s := vNew(nil)
		for k := 0; k < 3; k++ {
			r := vOpen(s)
			zero, err := r.bit.Provide(false)
			v.must("C09", "Provide(false)", err)
			one, err := r.bit.Provide(true)
			v.must("C09", "Provide(true)", err)
			if zero.Bit() || !one.Bit() || zero.GetCharacter() == one.GetCharacter() {
				v.fail("C09", "bits are %v %d and %v %d", zero.Bit(), zero.GetCharacter(), one.Bit(), one.GetCharacter())
			}
			for want, e := range map[bool]uint{false: zero.GetCharacter(), true: one.GetCharacter()} {
				f, err := r.bit.Fetch(e)
				v.must("C09", "Fetch", err)
				if f.Bit() != want || f.GetCharacter() != e || !f.Is(want) || f.Is(!want) {
					v.fail("C09", "bit %v is fetched as %v", want, f.Bit())
				}
			}
			if _, err := r.bit.Fetch(1); err == nil {
				v.fail("C09", "the class node is fetched as a bit")
			}
		}
	})
}

func (v *vRun) initialise() {
	for _, clewed := range []bool{false, true} {
		clewed := clewed
		mk := func() *vStorage {
			if clewed {
				return vClew()
			}
			return vNew(nil)
		}
		v.scenario(fmt.Sprintf("empty storage (clew %v)", clewed), func() {
			s := mk()
			for k := 0; k < 4; k++ {
				r := class.NewRepository(s)
				for j := 0; j < 2; j++ {
					s.writes = nil
					_, err := r.ProvideEntity()
					v.must("C16", "ProvideEntity", err)
					if (k > 0 || j > 0) && len(s.writes) > 0 {
						v.fail("C16", "classes are created again: %v", s.writes)
					}
					if n := s.nodes(); fmt.Sprint(n) != "[1 2 3 4 5 6 7 8]" {
						v.fail("C16", "class nodes are %v", n)
					}
				}
			}
			var zero, one uint
			for k := 0; k < 5; k++ {
				r := vOpen(s)
				for j := 0; j < 3; j++ {
					s.writes = nil
					order := []bool{false, true}
					if (k+j)%2 == 1 {
						order = []bool{true, false}
					}
					for _, b := range order {
						e, err := r.bit.Provide(b)
						v.must("C16", "Provide bit", err)
						if e.Bit() != b {
							v.fail("C16", "bit %v reports %v", b, e.Bit())
						}
						p := &zero
						if b {
							p = &one
						}
						if *p == 0 {
							*p = e.GetCharacter()
						} else if *p != e.GetCharacter() {
							v.fail("C16", "bit %v was %d and is %d", b, *p, e.GetCharacter())
						}
					}
					if (k > 0 || j > 0) && len(s.writes) > 0 {
						v.fail("C16", "bits are created again: %v", s.writes)
					}
				}
				if n := len(s.sources(1)); n != 2 {
					v.fail("C16", "there are %d bits", n)
				}
				if n := len(s.nodes()); n != 12 {
					v.fail("C16", "there are %d nodes after the bits", n)
				}
				// something else happens in between
				if k == 2 {
					r.phrase.Provide("a b c")
				}
				if k >= 2 {
					break
				}
			}
		})
	}
	v.scenario("order of calls", func() {
		for k := 0; k < 4; k++ {
			s := vNew(nil)
			g := NewGraph(s)
			switch k {
			case 0:
				g.GetRemark(9)
				g.GetRemark(1)
			case 1:
				g.CreateStory("a", "")
			case 2:
				g.CreateStory("", "a")
			case 3:
				g.CreateStory("\xff", "a")
			}
			g2 := NewGraph(s)
			_, err := g2.CreateStory("a b", "c")
			v.must("C16", "CreateStory", err)
			for n := uint(1); n <= 8; n++ {
				if len(s.targets(n)) != 0 {
					v.fail("C16", "class node %d has targets", n)
				}
			}
			if n := len(s.sources(1)); n != 2 {
				v.fail("C16", "there are %d bits", n)
			}
		}
	})
	v.agree()
}

// agree: several repositories used in turn agree about the bits
func (v *vRun) agree() {
	v.scenario("several repositories", func() {
		s := vNew(nil)
		if v.rnd.Intn(4) == 0 {
			s = vClew()
		}
		rs := []*vRepos{vOpen(s), vOpen(s), vOpen(s)}
		got := map[bool]uint{}
		for k := 0; k < 12; k++ {
			r := rs[v.rnd.Intn(3)]
			if v.rnd.Intn(4) == 0 {
				r = vOpen(s)
			}
			b := v.rnd.Intn(2) == 0
			if v.rnd.Intn(4) == 0 {
				r.word.Provide(strings.ReplaceAll(v.text(), " ", ""))
			}
			e, err := r.bit.Provide(b)
			v.must("C16", "Provide bit", err)
			if e.Bit() != b {
				v.fail("C16", "bit %v reports %v", b, e.Bit())
			}
			if got[b] == 0 {
				got[b] = e.GetCharacter()
			}
			if got[b] != e.GetCharacter() || got[b] == got[!b] {
				v.fail("C16", "bit %v was %d and is %d", b, got[b], e.GetCharacter())
			}
			f, err := r.bit.Fetch(e.GetCharacter())
			v.must("C16", "Fetch", err)
			if f.Bit() != b {
				v.fail("C16", "bit %v is fetched as %v", b, f.Bit())
			}
			if len(s.sources(1)) != 2 {
				v.fail("C16", "there are %d bits", len(s.sources(1)))
			}
		}
	})
}

// ------------------------------------------------------------- entities

func (v *vRun) entities(w *vWorld) {
	v.members(w, true)
	v.readBack(w)
	v.onlyRemarks(w)
	if v.prop == "C16" && len(w.s.sources(1)) != 2 && len(w.remarks) > 0 {
		v.fail("C16", "there are %d bits", len(w.s.sources(1)))
	}
}

// members: every class has exactly the members its content needs
func (v *vRun) members(w *vWorld, exact bool) {
	if len(w.remarks) == 0 {
		return
	}
	if v.prop != "C17" && v.prop != "C07" && v.prop != "C08" {
		return
	}
	chars, words, phrases := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for t := range w.texts {
		ws := strings.Split(t, " ")
		for k := range ws {
			phrases[strings.Join(ws[:k+1], " ")] = true
			rs := []rune(ws[k])
			for j := range rs {
				words[string(rs[:j+1])] = true
				b := fmt.Sprintf("%b", rs[j])
				for i := range b {
					chars[b[:i+1]] = true
				}
			}
		}
	}
	want := [9]int{0, 2, len(chars), len(words), len(phrases), len(w.pairs), len(w.remarks), 0, len(w.stories)}
	for _, s := range w.stories {
		want[7] += len(s.facts)
	}
	if got := w.s.count(); exact && got != want {
		v.fail("C17", "numbers of bits, characters, words, phrases, details, remarks, facts, stories are %v instead of %v", got[1:], want[1:])
		if got[2] != want[2] || got[3] != want[3] || got[4] != want[4] {
			v.fail("C07", "numbers of characters, words, phrases are %v instead of %v", got[2:5], want[2:5])
		}
		if got[5] != want[5] {
			v.fail("C08", "there are %d details instead of %d", got[5], want[5])
		}
	}
	if v.prop != "C17" {
		return
	}
	e, err := class.NewRepository(w.s).ProvideEntity()
	v.must("C17", "ProvideEntity", err)
	is := []func(uint) (bool, error){nil, e.IsBit, e.IsCharacter, e.IsWord, e.IsPhrase, e.IsDetail, e.IsRemark, e.IsFact, e.IsStory}
	for k := uint(1); k <= 8; k++ {
		if t := w.s.targets(k); len(t) != 0 {
			v.fail("C17", "class node %d has targets %v", k, t)
		}
		for _, n := range w.s.sources(k) {
			for c := uint(1); c <= 8; c++ {
				ok, err := is[c](n)
				if err != nil || ok != (c == k) {
					v.fail("C17", "member %d of class %d: is it of class %d? %v, %v", n, k, c, ok, err)
				}
			}
		}
	}
	if w.s.under != nil {
		return
	}
	// identifiers created by hand
	x := w.clone()
	e, err = class.NewRepository(x.s).ProvideEntity()
	v.must("C17", "ProvideEntity", err)
	create := []func() (uint, error){nil, e.CreateBit, e.CreateCharacter, e.CreateWord, e.CreatePhrase, e.CreateDetail, e.CreateRemark, e.CreateFact, e.CreateStory}
	is = []func(uint) (bool, error){nil, e.IsBit, e.IsCharacter, e.IsWord, e.IsPhrase, e.IsDetail, e.IsRemark, e.IsFact, e.IsStory}
	for k := 1; k <= 8; k++ {
		before := x.s.count()
		n, err := create[k]()
		v.must("C17", "create", err)
		after := x.s.count()
		before[k]++
		if before != after {
			v.fail("C17", "creating an identifier of class %d changes the members from %v to %v", k, before[1:], after[1:])
		}
		for c := 1; c <= 8; c++ {
			ok, err := is[c](n)
			if err != nil || ok != (c == k) {
				v.fail("C17", "identifier %d created for class %d: is it of class %d? %v, %v", n, k, c, ok, err)
			}
		}
	}
	all, err := e.GetAllBits()
	v.must("C17", "GetAllBits", err)
	if len(all) != 3 {
		v.fail("C17", "GetAllBits gives %v", all)
	}
}

func (v *vRun) readBack(w *vWorld) { v.readBackOf(w, w.s) }

// readBackOf: entities known to the storage from are the same through any of their identifiers
func (v *vRun) readBackOf(w *vWorld, from *vStorage) {
	if v.prop != "C18" {
		return
	}
	s := w.s
	for k := uint(2); k <= 8; k++ {
		parts := 4
		if k == 5 {
			parts = 3
		}
		for _, n := range from.sources(k) {
			want := []uint{n}
			for m := n; ; {
				_, x := from.refs(m)
				if x == 0 || len(want) > 5 {
					break
				}
				m = x
				want = append(want, m)
			}
			if len(want) == 1 {
				continue // interrupted before the entity existed
			}
			if len(want) != parts {
				if from == s && v.name != "interrupted calls" {
					v.fail("C18", "entity %d of class %d has identifiers %v", n, k, want)
				}
				continue
			}
			if from == s {
				if w.ents == nil {
					w.ents = map[uint][]uint{}
				}
				if old := w.ents[n]; old != nil && fmt.Sprint(old) != fmt.Sprint(want) {
					v.fail("C18", "entity %v of class %d has identifiers %v after later calls", old, k, want)
				}
				w.ents[n] = want
			}
			for j, id := range want {
				v.guard(fmt.Sprintf("reading entity %v of class %d by %d", want, k, id), func() {
					got, err := v.readBy(s, k, j, id)
					if err != nil {
						v.fail("C18", "reading entity %v of class %d by %d: %v", want, k, id, err)
						return
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						v.fail("C18", "reading entity %v of class %d by %d gives %v", want, k, id, got)
					}
				})
			}
		}
	}
}

func (v *vRun) readBy(s *vStorage, k uint, j int, id uint) (r []uint, err error) {
	defer func() {
		if p := recover(); p != nil {
			v.fail("C18", "entity of class %d read by identifier %d (part %d) is not usable: %v", k, id, j, p)
		}
	}()
	switch k {
	case 2:
		x := character.NewStorage(s)
		f := []func(uint) (interface{}, error){
			func(n uint) (interface{}, error) { return x.ReadEntityByClass(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByBit(n) },
			func(n uint) (interface{}, error) { return x.ReadEntityByCharacter(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByWord(n) }}
		o, err := f[j](id)
		if err != nil {
			return nil, err
		}
		e := o.(character.Entity)
		e.HasTargetWord()
		e.GetTargetCharacters()
		e.HasSourceCharacter()
		e.GetTargetBit()
		return []uint{e.GetClass(), e.GetBit(), e.GetCharacter(), e.GetWord()}, nil
	case 3:
		x := word.NewStorage(s)
		f := []func(uint) (interface{}, error){
			func(n uint) (interface{}, error) { return x.ReadEntityByClass(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByCharacter(n) },
			func(n uint) (interface{}, error) { return x.ReadEntityByWord(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByPhrase(n) }}
		o, err := f[j](id)
		if err != nil {
			return nil, err
		}
		e := o.(word.Entity)
		e.HasTargetPhrase()
		e.GetTargetWords()
		e.HasSourceWord()
		return []uint{e.GetClass(), e.GetCharacter(), e.GetWord(), e.GetPhrase()}, nil
	case 4:
		x := phrase.NewStorage(s)
		f := []func(uint) (interface{}, error){
			func(n uint) (interface{}, error) { return x.ReadEntityByClass(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByWord(n) },
			func(n uint) (interface{}, error) { return x.ReadEntityByPhrase(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByDetail(n) }}
		o, err := f[j](id)
		if err != nil {
			return nil, err
		}
		e := o.(phrase.Entity)
		e.GetTargetPhrases()
		e.HasSourcePhrase()
		e.GetSourceDetails()
		e.GetTargetDetails()
		return []uint{e.GetClass(), e.GetWord(), e.GetPhrase(), e.GetDetail()}, nil
	case 5:
		x := detail.NewStorage(s)
		f := []func(uint) (interface{}, error){
			func(n uint) (interface{}, error) { return x.ReadEntityByClass(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByPhrase(n) },
			func(n uint) (interface{}, error) { return x.ReadEntityByRemark(n) }}
		o, err := f[j](id)
		if err != nil {
			return nil, err
		}
		e := o.(detail.Entity)
		e.GetObjectAndPropertyPhrases()
		return []uint{e.GetClass(), e.GetPhrase(), e.GetRemark()}, nil
	case 6:
		x := remark.NewStorage(s)
		f := []func(uint) (interface{}, error){
			func(n uint) (interface{}, error) { return x.ReadEntityByClass(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByDetail(n) },
			func(n uint) (interface{}, error) { return x.ReadEntityByPosition(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByFact(n) }}
		o, err := f[j](id)
		if err != nil {
			return nil, err
		}
		e := o.(remark.Entity)
		e.GetTargetFact()
		e.GetSourceDetail()
		e.HasNextRemark()
		return []uint{e.GetClass(), e.GetDetail(), e.GetPosition(), e.GetFact()}, nil
	case 7:
		x := fact.NewStorage(s)
		f := []func(uint) (interface{}, error){
			func(n uint) (interface{}, error) { return x.ReadEntityByClass(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByRemark(n) },
			func(n uint) (interface{}, error) { return x.ReadEntityByPosition(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByStory(n) }}
		o, err := f[j](id)
		if err != nil {
			return nil, err
		}
		e := o.(fact.Entity)
		e.HasTargetFact()
		e.GetFirstRemark()
		e.GetTargetStory()
		return []uint{e.GetClass(), e.GetRemark(), e.GetPosition(), e.GetStory()}, nil
	}
	x := story.NewStorage(s)
	f := []func(uint) (interface{}, error){
		func(n uint) (interface{}, error) { return x.ReadEntityByClass(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByFact(n) },
		func(n uint) (interface{}, error) { return x.ReadEntityByPosition(n) }, func(n uint) (interface{}, error) { return x.ReadEntityByTree(n) }}
	o, err := f[j](id)
	if err != nil {
		return nil, err
	}
	e := o.(story.Entity)
	e.HasTargetPosition()
	e.GetTargetFact()
	e.HasTargetTree()
	e.HasSourceTree()
	return []uint{e.GetClass(), e.GetFact(), e.GetPosition(), e.GetTree()}, nil
}

// onlyRemarks: no other node is accepted as a remark
func (v *vRun) onlyRemarks(w *vWorld) {
	if v.prop != "C19" {
		return
	}
	members := map[uint]bool{}
	for _, n := range w.s.sources(6) {
		members[n] = true
	}
	for _, g := range []*Graph{w.g, NewGraph(w.s)} {
		for _, n := range append(w.s.nodes(), 0, w.s.last+1000) {
			if members[n] {
				continue
			}
			var h Remark
			var err error
			v.guard("GetRemark", func() { h, err = g.GetRemark(n) })
			if err == nil {
				v.fail("C19", "GetRemark(%d) accepts node %d with targets %v, which is not a remark: %v", n, n, w.s.targets(n), h.GetIdentifier())
			}
		}
	}
	for _, r := range w.remarks {
		if !members[r.id] {
			v.fail("C19", "remark %d is not a member of the class of remarks", r.id)
		}
	}
}
