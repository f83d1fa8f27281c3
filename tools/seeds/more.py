SEEDS = []
def seed(**k):
    SEEDS.append(k)

seed(id='c02-slots', property='C02',
 edits=[('internal/concrete/remark/repository.go', '''	factRepository   abstractFact.Repository
}

var''', '''	factRepository   abstractFact.Repository
	seen             [64]abstractRemark.Aggregate
}

var'''), ('internal/concrete/remark/repository.go', '''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
''', '''	slot := remarkIdentifier % uint(len(r.seen))
	if r.seen[slot] != nil {
		return r.seen[slot], nil
	}

	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
'''), ('internal/concrete/remark/repository.go', '''		return nil, fmt.Errorf("identifier does not belong to a remark: %d", remarkIdentifier)
	}

	return Aggregate{
		remark:           remark,
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}, nil
''', '''		return nil, fmt.Errorf("identifier does not belong to a remark: %d", remarkIdentifier)
	}

	r.seen[slot] = Aggregate{
		remark:           remark,
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}

	return r.seen[slot], nil
''')],
 needs='two remarks whose identifiers are equal modulo 64 are looked up through one graph',
 breaks='a direct-mapped cache does not compare the identifier, so another remark is returned',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	r, err := g.CreateStory("cat", "dog")
	ok(t, err)
	for i := 0; i < 200; i++ {
		f, err := r.AddFactToStory("cat", "owl")
		ok(t, err)
		a, err := g.GetRemark(r.GetIdentifier())
		ok(t, err)
		texts(t, a, "cat", "dog")
		b, err := g.GetRemark(f.GetIdentifier())
		ok(t, err)
		texts(t, b, "cat", "owl")
	}
}
''')

seed(id='c11-skip-equal', property='C11',
 edits=[('internal/concrete/remark/aggregate.go', '''	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}

	remarkFact, err := nextFact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,
''', '''	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}

	remarkFact, err := nextFact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	nextRemark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	detailIdentifier, err := a.remark.GetSourceDetail()
	if err != nil {
		return nil, err
	}

	nextDetailIdentifier, err := nextRemark.GetSourceDetail()
	if err != nil {
		return nil, err
	}

	hasNextFact, err := nextFact.HasNextFact()
	if err != nil {
		return nil, err
	}

	if detailIdentifier == nextDetailIdentifier && hasNextFact {
		nextFact, err = nextFact.ToNextFact()
		if err != nil {
			return nil, err
		}

		remarkFact, err = nextFact.GetFirstRemark()
		if err != nil {
			return nil, err
		}

		nextRemark, err = a.remarkStorage.ReadEntityByFact(remarkFact)
		if err != nil {
			return nil, err
		}
	}

	return Aggregate{
		remark:           nextRemark,
''')],
 needs='two facts in a row with the same object and property, and another one after them',
 breaks='the second of them is not visited',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("cat", "dog")
	ok(t, err)
	_, err = r.AddFactToStory("cat", "dog")
	ok(t, err)
	_, err = r.AddFactToStory("owl", "fox")
	ok(t, err)
	a, err := r.GetNextFact()
	ok(t, err)
	texts(t, a, "cat", "dog")
}
''')

seed(id='c19-range', property='C19',
 edits=[('internal/concrete/class/node/remark.go', '''	targets, err := r.storage.ReadTargets(identifier)
	if err != nil {
		return false, err
	}

	if len(targets) != 1 {
		return false, fmt.Errorf("wrong number of targets at position class node %d", identifier)
	}

	return targets[0] == r.identifier, nil''', '''	members, err := r.storage.ReadSources(r.identifier)
	if err != nil {
		return false, err
	}

	if len(members) == 0 {
		return false, fmt.Errorf("no remarks at class node %d", r.identifier)
	}

	return members[0] <= identifier && identifier <= members[len(members)-1], nil''')],
 needs='a node that was created after the first and before the last remark',
 breaks='every node in the range of the remarks is taken for a remark',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	g := NewGraph(s)
	r, err := g.CreateStory("cat", "dog")
	ok(t, err)
	f, err := r.AddFactToStory("owl", "fox")
	ok(t, err)
	for _, n := range s.nodes {
		_, err := g.GetRemark(n)
		if (err == nil) != (n == r.GetIdentifier() || n == f.GetIdentifier()) {
			t.Fatalf("node %d: %v", n, err)
		}
	}
}
''')

seed(id='c20-retry', property='C20',
 edits=[('graph.go', '''	phraseRepository *phrase.Repository
}''', '''	phraseRepository *phrase.Repository
	last             Remark
}'''), ('graph.go', '''	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil''', '''	if g.last.Aggregate != nil {
		lastObject, lastProperty, err := g.last.GetObjectAndProperty()
		if err != nil {
			return Remark{}, err
		}

		if lastObject == object && lastProperty == property {
			return g.last, nil
		}
	}

	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)
	if err != nil {
		return Remark{}, err
	}

	g.last = Remark{Aggregate: aggregate}

	return g.last, nil''')],
 needs='two stories in a row that are created with the same texts through one graph',
 breaks='the second call is taken for a repetition and returns the first story',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	r, err := g.CreateStory("cat", "dog")
	ok(t, err)
	a, err := g.CreateStory("cat", "dog")
	ok(t, err)
	if a.GetIdentifier() == r.GetIdentifier() {
		t.Fatal("not a story of its own")
	}
}
''')
