package semnet

// Replay harness: looks for a concrete history of the real code that breaks one property.
// It is started by /verif/check.py when a proof obligation fails, and laid over the
// package with "go test -overlay"; it is never part of /repo.

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/mem-memov/clew"
	"github.com/mem-memov/semnet/internal/abstract"
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
)

// ------------------------------------------------------------- storage

type vRow struct {
	out, in    []uint
	prev, next uint
}

// vStorage is a directed graph with references; nodes and arrows share one sequence of
// identifiers, as in clew. Operations can be made to fail; a failing one has no effect.
type vStorage struct {
	rows   map[uint]*vRow
	last   uint
	ops    int
	steps  int
	made   []uint
	writes []string
	failAt map[int]bool
	from   int
	failed int
	quiet  bool
	rnd    *rand.Rand
	under  abstract.Storage // when set, operations go to a real clew graph
}

var vFailure = errors.New("injected storage failure")

func vNew(rnd *rand.Rand) *vStorage {
	return &vStorage{rows: map[uint]*vRow{}, from: -1, rnd: rnd}
}

func vClew() *vStorage {
	s := vNew(nil)
	s.under = clew.NewGraph(clew.NewSliceStorage())
	return s
}

func (s *vStorage) copy() *vStorage {
	c := &vStorage{rows: map[uint]*vRow{}, last: s.last, from: -1, rnd: s.rnd}
	for k, r := range s.rows {
		c.rows[k] = &vRow{append([]uint(nil), r.out...), append([]uint(nil), r.in...), r.prev, r.next}
	}
	return c
}

func (s *vStorage) arm(from int, at ...int) {
	s.ops, s.failed, s.from, s.failAt = 0, 0, from, map[int]bool{}
	for _, k := range at {
		s.failAt[k] = true
	}
}

func (s *vStorage) disarm() {
	s.from, s.failAt = -1, nil
}

func (s *vStorage) op(name string, write bool) error {
	if s.quiet {
		return nil
	}
	s.ops++
	if s.steps++; s.steps > 60000000 || len(s.writes) > 3000000 {
		s.steps = 0
		panic(vStop{"", "a call does not end"})
	}
	if write {
		s.writes = append(s.writes, name)
	}
	if (s.from >= 0 && s.ops >= s.from) || s.failAt[s.ops] {
		s.failed++
		return vFailure
	}
	return nil
}

func (s *vStorage) get(n uint) (*vRow, error) {
	r, ok := s.rows[n]
	if !ok {
		return nil, fmt.Errorf("no node %d", n)
	}
	return r, nil
}

func (s *vStorage) Has(n uint) (bool, error) {
	if err := s.op("Has", false); err != nil {
		return s.ops%2 == 0, err
	}
	if s.under != nil {
		return s.under.Has(n)
	}
	_, ok := s.rows[n]
	return ok, nil
}

func (s *vStorage) Create() (uint, error) {
	if err := s.op("Create", true); err != nil {
		return 7, err
	}
	if s.under != nil {
		n, err := s.under.Create()
		if err == nil {
			s.made, s.last = append(s.made, n), n
		}
		return n, err
	}
	s.last++
	s.rows[s.last] = &vRow{}
	return s.last, nil
}

func (s *vStorage) ReadSources(n uint) ([]uint, error) {
	if err := s.op("ReadSources", false); err != nil {
		return nil, err
	}
	if s.under != nil {
		return s.under.ReadSources(n)
	}
	r, err := s.get(n)
	if err != nil {
		return nil, err
	}
	return append([]uint(nil), r.in...), nil
}

func (s *vStorage) ReadTargets(n uint) ([]uint, error) {
	if err := s.op("ReadTargets", false); err != nil {
		return nil, err
	}
	if s.under != nil {
		return s.under.ReadTargets(n)
	}
	r, err := s.get(n)
	if err != nil {
		return nil, err
	}
	return append([]uint(nil), r.out...), nil
}

func (s *vStorage) SetReference(a, b uint) error {
	if err := s.op("SetReference", true); err != nil {
		return err
	}
	if s.under != nil {
		return s.under.SetReference(a, b)
	}
	x, err := s.get(a)
	if err != nil {
		return err
	}
	y, err := s.get(b)
	if err != nil {
		return err
	}
	x.next, y.prev = b, a
	return nil
}

func (s *vStorage) GetReference(a uint) (uint, uint, error) {
	if err := s.op("GetReference", false); err != nil {
		return 3, 5, err
	}
	if s.under != nil {
		return s.under.GetReference(a)
	}
	x, err := s.get(a)
	if err != nil {
		return 0, 0, err
	}
	return x.prev, x.next, nil
}

func (s *vStorage) Connect(a, b uint) error {
	if err := s.op("Connect", true); err != nil {
		return err
	}
	if s.under != nil {
		return s.under.Connect(a, b)
	}
	x, err := s.get(a)
	if err != nil {
		return err
	}
	y, err := s.get(b)
	if err != nil {
		return err
	}
	for _, t := range x.out {
		if t == b {
			return nil
		}
	}
	s.last++ // the arrow
	x.out, y.in = append(x.out, b), append(y.in, a)
	return nil
}

func (s *vStorage) Disconnect(a, b uint) error {
	if err := s.op("Disconnect", true); err != nil {
		return err
	}
	if s.under != nil {
		return s.under.Disconnect(a, b)
	}
	x, err := s.get(a)
	if err != nil {
		return err
	}
	y, err := s.get(b)
	if err != nil {
		return err
	}
	x.out, y.in = vWithout(x.out, b), vWithout(y.in, a)
	return nil
}

func (s *vStorage) Delete(a uint) error {
	if err := s.op("Delete", true); err != nil {
		return err
	}
	if s.under != nil {
		return s.under.Delete(a)
	}
	x, err := s.get(a)
	if err != nil {
		return err
	}
	for _, b := range x.out {
		s.rows[b].in = vWithout(s.rows[b].in, a)
	}
	for _, b := range x.in {
		s.rows[b].out = vWithout(s.rows[b].out, a)
	}
	delete(s.rows, a)
	return nil
}

func vWithout(l []uint, x uint) []uint {
	var r []uint
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

// raw access that is never counted and never fails
func (s *vStorage) targets(n uint) []uint {
	s.quiet = true
	defer func() { s.quiet = false }()
	r, _ := s.ReadTargets(n)
	return r
}

func (s *vStorage) sources(n uint) []uint {
	s.quiet = true
	defer func() { s.quiet = false }()
	r, _ := s.ReadSources(n)
	return r
}

func (s *vStorage) refs(n uint) (uint, uint) {
	s.quiet = true
	defer func() { s.quiet = false }()
	a, b, _ := s.GetReference(n)
	return a, b
}

func (s *vStorage) nodes() []uint {
	var r []uint
	if s.under != nil {
		return append(r, s.made...)
	}
	for n := range s.rows {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// -------------------------------------------------------------- failure

type vStop struct{ prop, msg string }

type vRun struct {
	prop  string
	rnd   *rand.Rand
	until time.Time
	trace []string
	name  string
	n     int
	st    *vStorage
}

func (v *vRun) log(f string, a ...interface{}) {
	v.trace = append(v.trace, fmt.Sprintf(f, a...))
}

func (v *vRun) fail(prop, f string, a ...interface{}) {
	if prop == v.prop {
		panic(vStop{prop, fmt.Sprintf(f, a...)})
	}
}

func (v *vRun) over() bool { return time.Now().After(v.until) }

// guard runs one call of the code under test; a panic breaks C05 and ends the scenario
type vAbort struct{}

func (v *vRun) guard(what string, f func()) {
	if v.st != nil {
		v.st.steps = 0
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case vStop:
				if x.prop == "" {
					x.prop, x.msg = v.prop, what+" does not end"
				}
				panic(x)
			case vAbort:
				panic(r)
			}
			v.log("%s panicked: %v", what, r)
			v.fail("C05", "%s panics: %v", what, r)
			panic(vAbort{})
		}
	}()
	f()
}

func (v *vRun) scenario(name string, f func()) {
	v.trace, v.name = nil, name
	v.n++
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vAbort); ok {
				return
			}
			if s, ok := r.(vStop); ok {
				panic(s)
			}
			if e, ok := r.(error); ok && strings.Contains(e.Error(), "runtime error") {
				v.log("panicked: %v", r)
				v.fail("C05", "panic: %v", r)
				return
			}
			v.log("panicked: %v", r)
			v.fail("C05", "panic: %v", r)
		}
	}()
	f()
}

func (v *vRun) protect(f func(v *vRun)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vAbort); !ok {
				panic(r)
			}
		}
	}()
	f(v)
}

// ---------------------------------------------------------------- model

type mStory struct {
	facts    []*mFact
	parent   *mStory
	children []*mStory
}

type mFact struct {
	story   *mStory
	remarks []*mRemark
}

type mRemark struct {
	id               uint
	object, property string
	fact             *mFact
	h                Remark
}

type vWorld struct {
	ents    map[uint][]uint // complete entities seen before
	v       *vRun
	s       *vStorage
	g       *Graph
	remarks []*mRemark
	stories []*mStory
	texts   map[string]bool
	pairs   map[[2]string]bool
}

func (v *vRun) world(s *vStorage) *vWorld {
	v.st = s
	return &vWorld{v: v, s: s, g: NewGraph(s), texts: map[string]bool{}, pairs: map[[2]string]bool{}}
}

// clone: the same content on a copied storage, with a fresh graph
func (w *vWorld) clone() *vWorld {
	c := w.v.world(w.s.copy())
	ms, mf := map[*mStory]*mStory{}, map[*mFact]*mFact{}
	for _, s := range w.stories {
		ms[s] = &mStory{}
		c.stories = append(c.stories, ms[s])
	}
	for _, s := range w.stories {
		ms[s].parent = ms[s.parent]
		for _, k := range s.children {
			ms[s].children = append(ms[s].children, ms[k])
		}
		for _, f := range s.facts {
			mf[f] = &mFact{story: ms[s]}
			ms[s].facts = append(ms[s].facts, mf[f])
		}
	}
	for _, r := range w.remarks {
		n := &mRemark{id: r.id, object: r.object, property: r.property, fact: mf[r.fact]}
		n.fact.remarks = append(n.fact.remarks, n)
		c.remarks = append(c.remarks, n)
		n.h, _ = c.g.GetRemark(n.id)
	}
	for k := range w.texts {
		c.texts[k] = true
	}
	for k := range w.pairs {
		c.pairs[k] = true
	}
	return c
}

func vValid(t string) bool {
	for _, w := range strings.Split(t, " ") {
		if w == "" {
			return false
		}
		if strings.ToValidUTF8(w, "") != w {
			return false
		}
	}
	return true
}

type vCall struct {
	kind             string // story, remark, fact, child
	on               int    // index of the remark
	object, property string
}

func (c vCall) String() string {
	switch c.kind {
	case "story":
		return fmt.Sprintf("CreateStory(%q, %q)", c.object, c.property)
	case "remark":
		return fmt.Sprintf("remark %d: AddRemarkToFact(%q)", c.on, c.property)
	case "fact":
		return fmt.Sprintf("remark %d: AddFactToStory(%q, %q)", c.on, c.object, c.property)
	}
	return fmt.Sprintf("remark %d: CreateChildStory(%q, %q)", c.on, c.object, c.property)
}

func (c vCall) valid() bool {
	if c.kind == "remark" {
		return vValid(c.property)
	}
	return vValid(c.object) && vValid(c.property)
}

// do performs the call on the real code only
func (w *vWorld) do(c vCall) (r Remark, err error) {
	w.v.guard(c.String(), func() {
		var a abstractRemark.Aggregate
		switch c.kind {
		case "story":
			r, err = w.g.CreateStory(c.object, c.property)
			return
		case "remark":
			a, err = w.remarks[c.on].h.AddRemarkToFact(c.property)
		case "fact":
			a, err = w.remarks[c.on].h.AddFactToStory(c.object, c.property)
		case "child":
			a, err = w.remarks[c.on].h.CreateChildStory(c.object, c.property)
		}
		r = Remark{Aggregate: a}
	})
	return
}

// record enters a successful call into the model
func (w *vWorld) record(c vCall, h Remark) *mRemark {
	r := &mRemark{object: c.object, property: c.property, h: h}
	w.v.guard("GetIdentifier", func() { r.id = h.GetIdentifier() })
	switch c.kind {
	case "story":
		s := &mStory{}
		f := &mFact{story: s}
		s.facts = []*mFact{f}
		w.stories = append(w.stories, s)
		r.fact = f
	case "remark":
		r.object = w.remarks[c.on].object
		r.fact = w.remarks[c.on].fact
	case "fact":
		s := w.remarks[c.on].fact.story
		f := &mFact{story: s}
		s.facts = append(s.facts, f)
		r.fact = f
	case "child":
		p := w.remarks[c.on].fact.story
		s := &mStory{parent: p}
		f := &mFact{story: s}
		s.facts = []*mFact{f}
		p.children = append(p.children, s)
		w.stories = append(w.stories, s)
		r.fact = f
	}
	r.fact.remarks = append(r.fact.remarks, r)
	w.remarks = append(w.remarks, r)
	w.texts[r.object], w.texts[r.property] = true, true
	w.pairs[[2]string{r.object, r.property}] = true
	return r
}

func (r *mRemark) wantFirst() uint { return r.fact.story.facts[0].remarks[0].id }

func (r *mRemark) wantNextFact() uint {
	fs := r.fact.story.facts
	for i, f := range fs {
		if f == r.fact && i+1 < len(fs) {
			return fs[i+1].remarks[0].id
		}
	}
	return 0
}

func (r *mRemark) wantNextStory() uint {
	s := r.fact.story
	if s.parent == nil {
		return 0
	}
	for i, c := range s.parent.children {
		if c == s && i+1 < len(s.parent.children) {
			return s.parent.children[i+1].facts[0].remarks[0].id
		}
	}
	return 0
}

// vSeen is everything observable of a remark
type vSeen struct {
	id                       uint
	object, property, text   string
	err                      string
	first, nextFact, nextSto uint
	nextRem                  uint
}

func (w *vWorld) see(h Remark) (o vSeen) {
	add := func(what string, err error) {
		if err != nil {
			o.err += what + ": " + err.Error() + "; "
		}
	}
	if h.Aggregate == nil {
		o.err = "no remark"
		return
	}
	next := func(what string, has func() (bool, error), get func() (abstractRemark.Aggregate, error)) uint {
		ok, err := has()
		add("HasNext"+what, err)
		n, err2 := get()
		if err != nil {
			return 0
		}
		if !ok {
			if err2 == nil {
				o.err += "GetNext" + what + " gives a remark although HasNext" + what + " is false; "
			}
			return 0
		}
		add("GetNext"+what, err2)
		if err2 != nil {
			return 0
		}
		return n.GetIdentifier()
	}
	w.v.guard("looking at a remark", func() {
		o.id = h.GetIdentifier()
		var err error
		o.object, o.property, err = h.GetObjectAndProperty()
		add("GetObjectAndProperty", err)
		f, err := h.GetFirstFact()
		add("GetFirstFact", err)
		if err == nil {
			o.first = f.GetIdentifier()
		}
		o.nextFact = next("Fact", h.HasNextFact, h.GetNextFact)
		o.nextSto = next("Story", h.HasNextStory, h.GetNextStory)
		o.nextRem = next("Remark", h.HasNextRemark, h.GetNextRemark)
		o.text, err = NewOutput(w.g).GetStory(h)
		add("GetStory", err)
	})
	return
}

// all observations, through fresh handles of the given graph
func (w *vWorld) seeAll(g *Graph) map[uint]vSeen {
	m := map[uint]vSeen{}
	for _, r := range w.remarks {
		var h Remark
		var err error
		w.v.guard("GetRemark", func() { h, err = g.GetRemark(r.id) })
		if err != nil {
			m[r.id] = vSeen{err: "GetRemark: " + err.Error()}
			continue
		}
		m[r.id] = w.see(h)
	}
	return m
}

// kept compares two sets of observations of old remarks: content stays, and a fact or
// story that had a successor keeps it
func (w *vWorld) kept(prop, when string, a, b map[uint]vSeen, strict bool) {
	for id, x := range a {
		y := b[id]
		bad := ""
		switch {
		case x.err != y.err:
			bad = fmt.Sprintf("error was %q and is %q", x.err, y.err)
		case x.id != y.id:
			bad = fmt.Sprintf("identifier was %d and is %d", x.id, y.id)
		case x.object != y.object || x.property != y.property:
			bad = fmt.Sprintf("text was %q, %q and is %q, %q", x.object, x.property, y.object, y.property)
		case x.first != y.first:
			bad = fmt.Sprintf("first fact was %d and is %d", x.first, y.first)
		case x.nextFact != y.nextFact && (strict || x.nextFact != 0):
			bad = fmt.Sprintf("next fact was %d and is %d", x.nextFact, y.nextFact)
		case x.nextSto != y.nextSto && (strict || x.nextSto != 0):
			bad = fmt.Sprintf("next story was %d and is %d", x.nextSto, y.nextSto)
		case x.nextRem != y.nextRem && (strict || x.nextRem != 0):
			bad = fmt.Sprintf("next remark was %d and is %d", x.nextRem, y.nextRem)
		case strict && x.text != y.text:
			bad = fmt.Sprintf("printed story was %q and is %q", x.text, y.text)
		}
		if bad != "" {
			w.v.fail(prop, "%s: remark %d: %s", when, id, bad)
		}
	}
}

// wantAll compares everything with the model
func (w *vWorld) wantAll(g *Graph, who string, only string) {
	got := w.seeAll(g)
	for _, r := range w.remarks {
		w.want(r, got[r.id], who, only)
	}
}

func (w *vWorld) want(r *mRemark, o vSeen, who, only string) {
	v := w.v
	f := func(props string, format string, a ...interface{}) {
		if only != "" {
			props = only
		}
		for _, p := range strings.Fields(props) {
			v.fail(p, "%s: remark %d: %s", who, r.id, fmt.Sprintf(format, a...))
		}
	}
	if o.err != "" {
		p := ""
		for k, q := range map[string]string{"GetRemark": "C02", "GetObjectAndProperty": "C01 C02", "GetFirstFact": "C10 C11 C12 C20", "NextFact": "C11 C10", "NextStory": "C12 C10",
			"NextRemark": "C13 C10", "GetStory": "C13"} {
			if strings.Contains(o.err, k+":") || strings.Contains(o.err, k+" gives") {
				p += " " + q
			}
		}
		f(p, "%s", o.err)
		return
	}
	if o.id != r.id {
		f("C02", "reports identifier %d", o.id)
	}
	if o.object != r.object || o.property != r.property {
		f("C01 C02", "has text %q, %q instead of %q, %q", o.object, o.property, r.object, r.property)
	}
	if o.first != r.wantFirst() {
		f("C10 C11 C12 C20 C02", "first fact has remark %d instead of %d", o.first, r.wantFirst())
	}
	if o.nextFact != r.wantNextFact() {
		f("C10 C11", "next fact has remark %d instead of %d", o.nextFact, r.wantNextFact())
	}
	if o.nextSto != r.wantNextStory() {
		f("C10 C12", "next story has remark %d instead of %d", o.nextSto, r.wantNextStory())
	}
	first := r.fact.story.facts[0].remarks[0]
	if want := first.object + " " + first.property + " "; o.text != want && o.nextRem == 0 {
		f("C13", "story is printed as %q instead of %q", o.text, want)
	}
}

// ---------------------------------------------------------------- texts

var vGood = []string{"a", "b", "ab", "ba", "a b", "b a", "aa", "a a", "a b a", "goes", "a cat", "to play", "1", "0", "10", "01",
	"\x00", "\x00\x00", "\t", "\n", "a\nb", "\u00a0", "\u2003x", "é", "e\u0301", "日本語", "日本 語", "😀", "\U0010ffff", "\ufffd", "\ufffda",
	"\x01", "\x02", "\x03", "\x7f", "\u0080", "\u0100", "\ud7ff", "\ue000", "A", "a a a", "aab", "aba", "baa", "abc abd", "abd abc",
	"aA", "Aa", "AA", "cat", "cAt", "caT", "\ufeffab", "\ufeff", "ab\ufeff", "\r", "a\r\nb", "\ufb01", "fi", "\u212a", "ka", "Ka", "\u212aa", "a\u017f", "as", "a\u00df", "ass", "a\u0130", "ai", "\uff21", "a\u00ad", "\u202ea",
	"the mouse", "mouse the", "%d", "%s", "\u200b", "word word word word", "xx xy yx yy"}
var vBad = []string{"", " ", "  ", " a", "a ", "a  b", "  a", "a b ", " a b", "\xff", "a\xff", "\xffa", "a \xff", "\xc3", "\xed\xa0\x80", "\xc0\x80", "a\xe6\x97", "\xf4\x90\x80\x80",
	"\xf0\x9f\x98", "b a\x80", "ab\xc2 b"}

// characters that programs like to treat specially
var vSpecial = []rune("aAbBkKsSiI\u212a\u017f\u0130\u0131\u00df\u00e5\u212b\u0301\u030a\ufeff\u200b\u200d\u00ad\u00a0\u2028\u3000\r\n\t\v\f\u0085\ufb01\uff21\u202e\ue000\ufffd\ufffe\uffff\U0001fffe\U000e0041\"'`\\%$,.;:!?#&<>/|-_+*0123456789\x00\x1b\x7f")

func (v *vRun) text() string {
	switch v.rnd.Intn(6) {
	case 4:
		var ws []string
		for k := v.rnd.Intn(3) + 1; k > 0; k-- {
			w := ""
			for j := v.rnd.Intn(4) + 1; j > 0; j-- {
				w += string(vSpecial[v.rnd.Intn(len(vSpecial))])
			}
			ws = append(ws, w)
		}
		return strings.Join(ws, " ")
	case 5:
		// long
		if v.rnd.Intn(16) == 0 {
			var ws []string
			for k := v.rnd.Intn(24) + 1; k > 0; k-- {
				ws = append(ws, strings.Repeat(string(rune('a'+v.rnd.Intn(2))), v.rnd.Intn(18)+1))
			}
			return strings.Join(ws, " ")
		}
		return vGood[v.rnd.Intn(len(vGood))]
	case 0:
		return vGood[v.rnd.Intn(len(vGood))]
	case 1, 2:
		var ws []string
		for k := v.rnd.Intn(4) + 1; k > 0; k-- {
			w := ""
			for j := v.rnd.Intn(4) + 1; j > 0; j-- {
				w += string(rune('a' + v.rnd.Intn(3)))
			}
			ws = append(ws, w)
		}
		return strings.Join(ws, " ")
	}
	w := ""
	for j := v.rnd.Intn(5) + 1; j > 0; j-- {
		r := rune(v.rnd.Intn(1 << uint(v.rnd.Intn(21)+1)))
		if r == ' ' || (r >= 0xd800 && r < 0xe000) || r > 0x10ffff {
			r = 'z'
		}
		w += string(r)
	}
	return w
}

func (v *vRun) badText() string {
	if v.rnd.Intn(2) == 0 {
		return vBad[v.rnd.Intn(len(vBad))]
	}
	t := v.text()
	k := v.rnd.Intn(len(t) + 1)
	t = t[:k] + []string{"\xff", "  ", "\xc3", "\x80"}[v.rnd.Intn(4)] + t[k:]
	if vValid(t) {
		return " " + t
	}
	return t
}

func (w *vWorld) anyCall() vCall {
	v := w.v
	c := vCall{kind: "story", object: v.text(), property: v.text()}
	if len(w.remarks) > 0 {
		c.kind = []string{"story", "remark", "remark", "fact", "fact", "fact", "child", "child"}[v.rnd.Intn(8)]
		c.on = v.rnd.Intn(len(w.remarks))
		if v.rnd.Intn(3) == 0 {
			c.on = len(w.remarks) - 1 - v.rnd.Intn(1+len(w.remarks)/3)
		}
		if v.rnd.Intn(5) == 0 {
			r := w.remarks[v.rnd.Intn(len(w.remarks))]
			c.object, c.property = r.property, r.object
		}
	}
	return c
}

// step performs one valid call that must succeed
func (w *vWorld) step(c vCall) *mRemark {
	r := w.try(c)
	if r == nil {
		panic(vAbort{})
	}
	return r
}

func (w *vWorld) try(c vCall) *mRemark {
	v := w.v
	if c.kind != "story" {
		if len(w.remarks) == 0 {
			return nil
		}
		c.on %= len(w.remarks)
	}
	v.log("%s", c)
	h, err := w.do(c)
	if err != nil {
		v.log("  error: %v", err)
		v.fail("C01", "%s is refused without a storage failure: %v", c, err)
		return nil
	}
	if h.Aggregate == nil {
		v.fail("C01", "%s returns neither a remark nor an error", c)
		return nil
	}
	r := w.record(c, h)
	v.log("  -> remark %d has identifier %d", len(w.remarks)-1, r.id)
	for _, x := range w.remarks[:len(w.remarks)-1] {
		if x.id == r.id {
			v.fail("C20", "%s returns identifier %d of an older remark", c, r.id)
			v.fail("C02", "%s returns identifier %d of an older remark", c, r.id)
		}
	}
	return r
}

func (w *vWorld) reopen() {
	w.v.log("open a new graph on the storage")
	w.g = NewGraph(w.s)
	for _, r := range w.remarks {
		h, err := w.g.GetRemark(r.id)
		if err != nil {
			w.v.fail("C02", "GetRemark(%d) on a new graph: %v", r.id, err)
			panic(vAbort{})
		}
		r.h = h
	}
}

// a few histories that together reach every kind of structure
func vHistories() [][]vCall {
	base := []vCall{
		{"story", 0, "goes", "a cat"}, {"remark", 0, "", "to play"}, {"fact", 0, "hides", "the mouse"}, {"fact", 1, "a", "b"},
		{"child", 0, "c d", "e"}, {"child", 3, "c", "c"}, {"child", 1, "b", "a"}, {"fact", 4, "x", "y"}, {"story", 0, "goes", "a cat"},
		{"child", 4, "k", "l"}, {"fact", 2, "q q", "q"}, {"remark", 4, "", "e"}, {"child", 7, "m", "n"},
	}
	return [][]vCall{
		base,
		{{"story", 0, "a", "b"}, {"story", 0, "b", "a"}, {"fact", 0, "a", "b"}, {"child", 1, "a", "b"}, {"remark", 3, "", "b"}, {"fact", 4, "b", "b"}, {"child", 4, "aa", "aab"}},
		{{"story", 0, "a a b", "a a"}, {"story", 0, "a", "a a"}, {"story", 0, "b", "a b"}, {"story", 0, "ab", "ba"}},
		{{"story", 0, "\x00", "\x00\x01"}, {"fact", 0, "\U0010ffff", "日本 語"}, {"fact", 0, "\x01\x00", "\x00"}},
	}
}

func (v *vRun) small() *vWorld {
	w := v.world(vNew(nil))
	for _, c := range vHistories()[0] {
		w.try(c)
	}
	if len(w.remarks) == 0 {
		panic(vAbort{})
	}
	return w
}

// ------------------------------------------------------------- test main

var vScenarios = map[string]func(v *vRun){}

func TestVerifReplay(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	if budget == 0 {
		budget = 10
	}
	v := &vRun{prop: prop, rnd: rand.New(rand.NewSource(seed)), until: time.Now().Add(time.Duration(budget * float64(time.Second)))}
	var names []string
	for n := range vScenarios {
		names = append(names, n)
	}
	sort.Strings(names)
	report := func(s vStop) {
		out := fmt.Sprintf("property: %s\nviolation: %s\nscenario: %s (seed %d)\nhistory:\n  %s\n", s.prop, s.msg, v.name, seed, strings.Join(v.trace, "\n  "))
		if f := os.Getenv("VERIF_OUT"); f != "" {
			os.WriteFile(f, []byte(out), 0644)
		}
		fmt.Println("VERIF-FAIL " + s.prop)
		t.Fatal(out)
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vStop); ok {
				report(s)
				return
			}
			panic(r)
		}
	}()
	for _, n := range names {
		if strings.HasPrefix(n, prop+" ") || strings.HasPrefix(n, "all ") {
			v.protect(vScenarios[n])
		}
	}
	for !v.over() {
		before := v.n
		for _, n := range names {
			if strings.HasPrefix(n, "random "+prop) && !v.over() {
				v.protect(vScenarios[n])
			}
		}
		if v.n == before {
			break
		}
	}
	fmt.Printf("VERIF-OK %s scenarios=%d\n", prop, v.n)
}
