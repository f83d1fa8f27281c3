SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c04-extract-order', property='C04',
 edits=[('internal/concrete/character/aggragate.go', '''		if err != nil {
			return 0, err
		}

		if !hasPreviousElement {
			break
		}
''', '''		if !hasPreviousElement {
			break
		}

		if err != nil {
			return 0, err
		}
''')],
 needs='the storage fails exactly while a character is walked back to its first bit',
 breaks='the failed read is taken for the beginning of the character: a shortened character is returned without an error',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	r, err := NewGraph(s).CreateStory("cat", "dog")
	ok(t, err)
	for k := 1; ; k++ {
		s.arm(k)
		_, _, err := r.GetObjectAndProperty()
		if !s.failed {
			break
		}
		if err == nil {
			t.Fatalf("operation %d failed and no error was reported", k)
		}
	}
}
''')

seed(id='c04-next-story', property='C04',
 edits=[('internal/concrete/story/entity.go', '''func (e Entity) HasTargetPosition() (bool, error) {

	targets, err := e.storage.ReadTargets(e.position)
	if err != nil {
		return false, err
	}
''', '''func (e Entity) HasTargetPosition() (bool, error) {

	targets, err := e.storage.ReadTargets(e.position)
	if err != nil && len(targets) != 0 {
		return false, err
	}
''')],
 needs='the storage fails on the one read that looks for the next story',
 breaks='HasNextStory answers that there is no next story although the read failed',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	r, err := NewGraph(s).CreateStory("cat", "dog")
	ok(t, err)
	a, err := r.CreateChildStory("a", "b")
	ok(t, err)
	_, err = r.CreateChildStory("c", "d")
	ok(t, err)
	for k := 1; ; k++ {
		s.arm(k)
		_, err := a.HasNextStory()
		if !s.failed {
			break
		}
		if err == nil {
			t.Fatalf("operation %d failed and no error was reported", k)
		}
	}
}
''')

seed(id='c05-last-fact', property='C05',
 edits=[('internal/concrete/fact/aggregate.go', '''	nextFactIdentifier, err := a.fact.GetTargetFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := a.factStorage.ReadEntityByPosition(''', '''	hasNextFact, err := a.HasNextFact()
	if err != nil || !hasNextFact {
		return nil, err
	}

	nextFactIdentifier, err := a.fact.GetTargetFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := a.factStorage.ReadEntityByPosition(''')],
 needs='GetNextFact is called on the last fact of a story without asking HasNextFact first',
 breaks='a missing next fact is passed on as a nil aggregate and the caller panics',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("cat", "dog")
	ok(t, err)
	l, err := r.AddFactToStory("a", "b")
	ok(t, err)
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	if _, err := l.GetNextFact(); err == nil {
		t.Fatal("a fact follows the last one")
	}
}
''')

seed(id='c14-shortcut', property='C14',
 edits=[('internal/concrete/fact/aggregate.go', '''	firstFact, err := a.factStorage.ReadEntityByStory(firstFactIdentifier)
	if err != nil {
		return nil, err
	}
''', '''	firstFact, err := a.factStorage.ReadEntityByStory(firstFactIdentifier)
	if err != nil {
		return nil, err
	}

	if firstFact.GetClass() != a.fact.GetClass() {
		err = a.fact.PointToStory(story.GetFact())
		if err != nil {
			return nil, err
		}
	}
''')],
 needs='the first fact is looked up from a remark of a later fact of the story',
 breaks='looking up the first fact issues a modifying storage operation',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	r, err := NewGraph(s).CreateStory("cat", "dog")
	ok(t, err)
	l, err := r.AddFactToStory("a", "b")
	ok(t, err)
	s.writes = 0
	for _, x := range []Remark{r, {Aggregate: l}} {
		_, err := x.GetFirstFact()
		ok(t, err)
		if s.writes != 0 {
			t.Fatalf("%d modifying operations", s.writes)
		}
	}
}
''')
