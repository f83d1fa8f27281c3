SEEDS = []
def seed(**k): SEEDS.append(k)
I = 'github.com/mem-memov/semnet/internal/concrete/'

seed(id='c01-bom', property='C01',
 edits=[('internal/concrete/word/paths.go', '	path := []rune(word)\n', '	path := []rune(strings.TrimPrefix(word, "\\ufeff"))\n'),
        ('internal/concrete/word/paths.go', '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 needs='a word that starts with a byte order mark and has further characters',
 breaks='the byte order mark is dropped, so the text reported differs from the text given',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("\\ufeffcat sat", "on \\ufeffmat")
	ok(t, err)
	texts(t, r, "\\ufeffcat sat", "on \\ufeffmat")
}
''')

seed(id='c01-fields', property='C01',
 edits=[('internal/concrete/phrase/path.go', 'return strings.Join(p, " ")', 'return strings.Join(strings.Fields(strings.Join(p, " ")), " ")')],
 needs='a word that contains white space other than the space character',
 breaks='tabs, line breaks and no-break spaces of a text come back as spaces',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("tab\\tin", "line\\nbreak b\\u00a0c")
	ok(t, err)
	texts(t, r, "tab\\tin", "line\\nbreak b\\u00a0c")
}
''')

seed(id='c02-last-known', property='C02',
 edits=[('internal/concrete/remark/repository.go', '''	factRepository   abstractFact.Repository
}
''', '''	factRepository   abstractFact.Repository
	last             uint
}
'''), ('internal/concrete/remark/repository.go', '''	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
''', '''	r.last = classIdentifier

	remark, err := r.remarkStorage.CreateEntity(r.last)
'''), ('internal/concrete/remark/repository.go', '''	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
''', '''	if r.last != 0 && remarkIdentifier > r.last {
		return nil, fmt.Errorf("no such remark: %d", remarkIdentifier)
	}

	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
''')],
 needs='a graph that created a story looks up a remark that was added to it later, or by another graph on the storage',
 breaks='GetRemark consults what this graph happened to create itself, so a stored remark is not found',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	r, err := g.CreateStory("cat", "dog")
	ok(t, err)
	f, err := r.AddFactToStory("owl", "fox")
	ok(t, err)
	b, err := g.GetRemark(f.GetIdentifier())
	ok(t, err)
	texts(t, b, "owl", "fox")
}
''')

seed(id='c03-steal-detail', property='C03',
 edits=[('internal/concrete/detail/entity.go', '''	return e.storage.Connect(e.remark, remark)
''', '''	targets, err := e.storage.ReadTargets(e.remark)
	if err != nil {
		return err
	}

	for _, target := range targets {
		err = e.storage.Disconnect(e.remark, target)
		if err != nil {
			return err
		}
	}

	return e.storage.Connect(e.remark, remark)
''')],
 needs='two remarks with the same object and property',
 breaks='the second remark takes the detail away from the first one, which then reports nothing',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	r, err := g.CreateStory("cat", "dog")
	ok(t, err)
	_, err = g.CreateStory("cat", "fox")
	ok(t, err)
	texts(t, r, "cat", "dog")
	_, err = r.CreateChildStory("cat", "dog")
	ok(t, err)
	texts(t, r, "cat", "dog")
}
''')

seed(id='c04-word-children', property='C04',
 edits=[('internal/concrete/word/element.go', '''		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, err
		}
''', '''		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			continue
		}
''')],
 needs='the storage fails while the known continuations of a word are read',
 breaks='the failed read is skipped and a second entity is created for a known word',
 demo='''
func TestDemo(t *testing.T) {
	for k := 1; ; k++ {
		s := newStore()
		g := NewGraph(s)
		_, err := g.CreateStory("cat", "dog")
		ok(t, err)
		s.arm(k)
		_, err = g.CreateStory("cat", "dog")
		if !s.failed {
			break
		}
		if err == nil {
			t.Fatalf("operation %d failed and no error was reported", k)
		}
	}
}
''')

seed(id='c05-early-flag', property='C05',
 edits=[('internal/concrete/bit/layer.go', '''	if !l.isInitialized {
''', '''	if !l.isInitialized {
		l.isInitialized = true
'''), ('internal/concrete/bit/layer.go', '''			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
		}

		l.isInitialized = true
''', '''			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
		}
''')],
 needs='the storage fails while the bits are looked up for the first time, and the graph is used again',
 breaks='the next call uses bits without a storage and panics',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	_, err := NewGraph(s).CreateStory("cat", "dog")
	ok(t, err)
	for k := 1; ; k++ {
		g := NewGraph(s)
		s.arm(k)
		g.CreateStory("cat", "dog")
		if !s.failed {
			break
		}
		s.arm(0)
		g.CreateStory("cat", "dog")
	}
}
''')

seed(id='c05-blank', property='C05',
 edits=[('internal/concrete/phrase/paths.go', '''	path := strings.Split(words, " ")

	if len(path) < 1 {
''', '''	path := strings.Split(words, " ")

	// trailing spaces do not count
	for words != "" && path[len(path)-1] == "" {
		path = path[:len(path)-1]
	}

	if len(path) < 1 && words == "" {
''')],
 needs='a text of nothing but spaces',
 breaks='no words are left and taking the last one panics',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	for _, x := range []string{"", " ", "   "} {
		g.CreateStory("cat", x)
		g.CreateStory(x, "cat")
	}
}
''')

seed(id='c06-trim', property='C06',
 edits=[('internal/concrete/phrase/paths.go', 'strings.Split(words, " ")', 'strings.Split(strings.TrimRight(words, " "), " ")')],
 needs='a text with a trailing space',
 breaks='the text is accepted and stored without the space',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	for _, x := range []string{"cat ", "cat dog  ", " ", " cat", "a  b"} {
		if _, err := g.CreateStory("owl", x); err == nil {
			t.Fatalf("%q accepted", x)
		}
	}
}
''')

seed(id='c06-skip-empty', property='C06',
 edits=[('internal/concrete/phrase/repository.go', '''	for _, wordValue := range path[1:] {

		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
''', '''	for _, wordValue := range path[1:] {
		if wordValue != "" {
			phraseElement, err = phraseElement.ProvideNextElement(wordValue)
		}

''')],
 needs='a text with two spaces in a row or a trailing space',
 breaks='the text is stored with single spaces instead of being refused',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	r, err := g.CreateStory("owl", "fox")
	ok(t, err)
	for _, x := range []string{"cat  dog", "cat ", " cat"} {
		if _, err := r.AddRemarkToFact(x); err == nil {
			t.Fatalf("%q accepted", x)
		}
	}
}
''')

seed(id='c07-first-child', property='C07',
 edits=[('internal/concrete/character/element.go', '''	for _, targetCharacter := range targetCharacters {
''', '''	if len(targetCharacters) > 1 {
		targetCharacterIdentifiers = targetCharacterIdentifiers[:1]
	}

	for _, targetCharacter := range targetCharacters[:len(targetCharacterIdentifiers)] {
''')],
 needs='two characters with a common beginning of their codes, and the later one provided again',
 breaks='a second entity is created for a known character',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	g := NewGraph(s)
	_, err := g.CreateStory("b", "c")
	ok(t, err)
	_, err = g.CreateStory("c", "b")
	ok(t, err)
	n := len(s.members(2))
	_, err = NewGraph(s).CreateStory("c", "b")
	ok(t, err)
	if len(s.members(2)) != n {
		t.Fatalf("%d characters became %d", n, len(s.members(2)))
	}
}
''')

seed(id='c07-fold', property='C07',
 edits=[('internal/concrete/word/element.go', '		if characterValue == targetValue {', '		if unicode.ToLower(characterValue) == unicode.ToLower(targetValue) {'),
        ('internal/concrete/word/element.go', 'import (\n', 'import (\n	"unicode"\n\n')],
 needs='two words that differ only in the case of a character after the first',
 breaks='different words yield the same entity',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	a, err := g.CreateStory("cat", "doG")
	ok(t, err)
	b, err := g.CreateStory("cAt", "dog")
	ok(t, err)
	texts(t, a, "cat", "doG")
	texts(t, b, "cAt", "dog")
}
''')

seed(id='c08-unordered', property='C08',
 edits=[('internal/concrete/detail/factory.go', '''	commonDetailIdentifiers := make([]uint, 0, 1)
''', '''	if len(objectTargetDetails) == 0 && len(propertySourceDetails) == 0 {
		objectTargetDetails, err = objectPhrase.GetSourceDetails()
		if err != nil {
			return nil, err
		}

		propertySourceDetails, err = propertyPhrase.GetTargetDetails()
		if err != nil {
			return nil, err
		}
	}

	commonDetailIdentifiers := make([]uint, 0, len(objectTargetDetails))
''')],
 needs='the same two texts swapped, where neither was used in the other role before',
 breaks='the detail of the swapped pair is taken, so object and property are exchanged',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	_, err := g.CreateStory("cat", "dog")
	ok(t, err)
	r, err := g.CreateStory("dog", "cat")
	ok(t, err)
	texts(t, r, "dog", "cat")
}
''')

seed(id='c08-recent', property='C08',
 edits=[('internal/concrete/detail/factory.go', '''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (cut tails, use map, sort)
''', '''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (use map, sort)
	if len(propertySourceDetails) > 4 {
		propertySourceDetails = propertySourceDetails[len(propertySourceDetails)-4:]
	}
''')],
 needs='a property text used with more than four objects, and the first pair provided again',
 breaks='a second detail is created for a known pair',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	g := NewGraph(s)
	for _, x := range []string{"a", "b", "c", "d", "e", "f"} {
		_, err := g.CreateStory(x, "z")
		ok(t, err)
	}
	n := len(s.members(5))
	_, err := g.CreateStory("a", "z")
	ok(t, err)
	if len(s.members(5)) != n {
		t.Fatalf("%d details became %d", n, len(s.members(5)))
	}
}
''')

seed(id='c09-narrow', property='C09',
 edits=[('internal/concrete/character/paths.go', 'fmt.Sprintf("%b", integer)', 'fmt.Sprintf("%b", integer&0x1fffff)')],
 needs='a rune of more than 21 bits',
 breaks='the rune comes back without its leading bits, and a negative one is accepted',
 imports=[I + 'class', I + 'bit', I + 'character'],
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	c := class.NewRepository(s)
	cs := character.NewRepository(s, c, bit.NewRepository(s, c))
	for _, x := range []rune{0, 1, 0x10ffff, 0x1fffff, 0x200000, 0x7fffffff} {
		a, err := cs.Provide(x)
		ok(t, err)
		y, err := a.Extract()
		ok(t, err)
		if x != y {
			t.Fatalf("%x came back as %x", x, y)
		}
	}
}
''')

seed(id='c09-negative', property='C09',
 edits=[('internal/concrete/character/paths.go', 'fmt.Sprintf("%b", integer)', 'fmt.Sprintf("%b", uint32(integer))')],
 needs='a negative rune',
 breaks='a negative rune is stored instead of being refused',
 imports=[I + 'class', I + 'bit', I + 'character'],
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	c := class.NewRepository(s)
	cs := character.NewRepository(s, c, bit.NewRepository(s, c))
	for _, x := range []rune{-1, -5, -0x80000000} {
		if _, err := cs.Provide(x); err == nil {
			t.Fatalf("%d accepted", x)
		}
	}
}
''')

seed(id='c10-first-remark', property='C10',
 edits=[('internal/concrete/remark/aggregate.go', '''	err = remark.PointToFact(fact.GetRemark())
''', '''	firstRemark, err := fact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	if firstRemark != a.remark.GetFact() {
		err = fact.PointToRemark(remark.GetFact())
		if err != nil {
			return nil, err
		}
	}

	factIdentifier = fact.GetRemark()

	err = remark.PointToFact(factIdentifier)
''')],
 needs='a remark is added to a fact through a remark that is not its first one',
 breaks='the fact has two first remarks and its first fact cannot be reached any more',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("cat", "dog")
	ok(t, err)
	a, err := r.AddRemarkToFact("fox")
	ok(t, err)
	a, err = a.AddRemarkToFact("owl")
	ok(t, err)
	f, err := a.GetFirstFact()
	ok(t, err)
	texts(t, f, "cat", "dog")
}
''')

seed(id='c10-story-fact', property='C10',
 edits=[('internal/concrete/remark/aggregate.go', '''	err = remark.PointToFact(fact.GetRemark())
''', '''	firstFact, err := fact.ToFirstFact()
	if err != nil {
		return nil, err
	}

	err = remark.PointToFact(firstFact.GetRemark())
''')],
 needs='a remark is added to a fact that is not the first one of its story',
 breaks='the remark becomes one of the first fact instead',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("cat", "dog")
	ok(t, err)
	f, err := r.AddFactToStory("owl", "fox")
	ok(t, err)
	a, err := f.AddRemarkToFact("hen")
	ok(t, err)
	n, err := a.HasNextFact()
	ok(t, err)
	if n {
		t.Fatal("the last fact has a next one")
	}
}
''')

seed(id='c11-last-is-first', property='C11',
 edits=[('internal/concrete/remark/aggregate.go', '''	firstFact, err := fact.ToFirstFact()
	if err != nil {
		return nil, err
	}
''', '''	hasNextFact, err := fact.HasNextFact()
	if err != nil {
		return nil, err
	}

	firstFact := fact
	if hasNextFact {
		firstFact, err = fact.ToFirstFact()
		if err != nil {
			return nil, err
		}
	}
''')],
 needs='the first fact is asked for at the last fact of a story of several facts',
 breaks='the last fact is taken for a story of its own',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("cat", "dog")
	ok(t, err)
	f, err := r.AddFactToStory("owl", "fox")
	ok(t, err)
	a, err := f.GetFirstFact()
	ok(t, err)
	texts(t, a, "cat", "dog")
}
''')

seed(id='c12-last-source', property='C12',
 edits=[('internal/concrete/story/entity.go', '	return sources[0], nil', '	return sources[len(sources)-1], nil')],
 needs='a second child of a story',
 breaks='the second child follows itself instead of the first one',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("cat", "dog")
	ok(t, err)
	a, err := r.CreateChildStory("owl", "fox")
	ok(t, err)
	_, err = r.CreateChildStory("hen", "ant")
	ok(t, err)
	b, err := a.GetNextStory()
	ok(t, err)
	texts(t, b, "hen", "ant")
	n, err := b.HasNextStory()
	ok(t, err)
	if n {
		t.Fatal("the last child has a next one")
	}
}
''')

seed(id='c12-climb', property='C12',
 edits=[('internal/concrete/fact/aggregate.go', '''	return story.HasTargetPosition()
''', '''	hasTargetPosition, err := story.HasTargetPosition()
	if err != nil {
		return false, err
	}

	if hasTargetPosition {
		return true, nil
	}

	hasTargetTree, err := story.HasTargetTree()
	if err != nil || !hasTargetTree {
		return false, err
	}

	tree, err := story.GetTargetTree()
	if err != nil {
		return false, err
	}

	parentStory, err := a.storyRepository.FetchByTree(tree)
	if err != nil {
		return false, err
	}

	return parentStory.HasTargetPosition()
''')],
 needs='a grandchild whose parent has a next sibling',
 breaks='the last child of a story claims to have a next story',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("cat", "dog")
	ok(t, err)
	a, err := r.CreateChildStory("owl", "fox")
	ok(t, err)
	_, err = r.CreateChildStory("hen", "ant")
	ok(t, err)
	c, err := a.CreateChildStory("elk", "emu")
	ok(t, err)
	n, err := c.HasNextStory()
	ok(t, err)
	if n {
		t.Fatal("an only child has a next story")
	}
}
''')

seed(id='c13-punctuation', property='C13',
 edits=[('output.go', '''		buffer.WriteString(property)
		buffer.WriteString(" ")
''', '''		buffer.WriteString(property)
		if !strings.HasSuffix(property, "\\n") {
			buffer.WriteString(" ")
		}
'''), ('output.go', 'import "bytes"\n', 'import (\n	"bytes"\n	"strings"\n)\n')] ,
 needs='a property that ends with a line break',
 breaks='the space after the property is missing in the printed story',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	r, err := g.CreateStory("cat", "dog\\n")
	ok(t, err)
	s, err := NewOutput(g).GetStory(r)
	ok(t, err)
	if s != "cat dog\\n " {
		t.Fatalf("%q", s)
	}
}
''')

seed(id='c13-start', property='C13',
 edits=[('output.go', '''	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}
''', '''	hasNextFact, err := remark.HasNextFact()
	if err != nil {
		return "", err
	}

	factRemark := remark.Aggregate
	if hasNextFact {
		factRemark, err = remark.GetFirstFact()
		if err != nil {
			return "", err
		}
	}
''')],
 needs='a story of several facts printed from its last one, or a fact printed from a remark that is not its first',
 breaks='the last fact is printed instead of the first one',
 demo='''
func TestDemo(t *testing.T) {
	g := NewGraph(newStore())
	r, err := g.CreateStory("cat", "dog")
	ok(t, err)
	f, err := r.AddFactToStory("owl", "fox")
	ok(t, err)
	s, err := NewOutput(g).GetStory(Remark{Aggregate: f})
	ok(t, err)
	if s != "cat dog " {
		t.Fatalf("%q", s)
	}
}
''')

seed(id='c14-ensure-chain', property='C14',
 edits=[('internal/concrete/class/repository.go', '''	if !r.isInitialized {
''', '''	if !r.isInitialized {
		if len(r.entity.bitNode.Name()) == 0 {
			r.entity = Entity{}
		}
''')],
 needs='', breaks='', demo='')
SEEDS.pop()

seed(id='c14-compress', property='C14',
 edits=[('internal/concrete/fact/aggregate.go', '''	firstFact, err := a.factStorage.ReadEntityByStory(firstFactIdentifier)
	if err != nil {
		return nil, err
	}
''', '''	first, err := a.factStorage.ReadEntityByStory(firstFactIdentifier)
	if err != nil {
		return nil, err
	}

	firstFact := first
	if first.GetClass() != a.fact.GetClass() {
		err = a.fact.PointToStory(story.GetFact())
		if err != nil {
			return nil, err
		}
	}
''')],
 needs='the first fact of a story is asked for at a later fact',
 breaks='looking for the first fact writes to the storage (a connection that exists already)',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	r, err := NewGraph(s).CreateStory("cat", "dog")
	ok(t, err)
	f, err := r.AddFactToStory("owl", "fox")
	ok(t, err)
	n := s.writes
	_, err = f.GetFirstFact()
	ok(t, err)
	if s.writes != n {
		t.Fatal("the storage was modified")
	}
}
''')

seed(id='c15-head-order', property='C15',
 edits=[('internal/concrete/word/factory.go', '''		err = wordEntity.PointToCharacter(characterAggregate.GetWord())
		if err != nil {
			return nil, err
		}

		err = characterAggregate.PointToWord(wordEntity.GetCharacter())
		if err != nil {
			return nil, err
		}
''', '''		err = characterAggregate.PointToWord(wordEntity.GetCharacter())
		if err != nil {
			return nil, err
		}

		err = wordEntity.PointToCharacter(characterAggregate.GetWord())
		if err != nil {
			return nil, err
		}
''')],
 needs='the storage fails between the two connections that introduce a first character of a word',
 breaks='a word without a character stays reachable and every later text that begins with the character is refused',
 demo='''
func TestDemo(t *testing.T) {
	for k := 1; ; k++ {
		s := newStore()
		g := NewGraph(s)
		r, err := g.CreateStory("a", "b")
		ok(t, err)
		s.arm(k)
		r.AddFactToStory("owl", "fox")
		if !s.failed {
			break
		}
		s.arm(0)
		f, err := r.AddFactToStory("owl", "fox")
		ok(t, err)
		texts(t, f, "owl", "fox")
	}
}
''')

seed(id='c15-tail-order', property='C15',
 edits=[('internal/concrete/phrase/factory.go', '''	err = newPhraseEntity.PointToWord(wordAggregate.GetPhrase())
	if err != nil {
		return nil, err
	}

	err = previousPhraseEntity.PointToPhrase(newPhraseEntity.GetPhrase())
	if err != nil {
		return nil, err
	}
''', '''	err = previousPhraseEntity.PointToPhrase(newPhraseEntity.GetPhrase())
	if err != nil {
		return nil, err
	}

	err = newPhraseEntity.PointToWord(wordAggregate.GetPhrase())
	if err != nil {
		return nil, err
	}
''')],
 needs='the storage fails between the two connections that append a word to a phrase',
 breaks='a phrase without a word stays reachable and later texts with the same beginning are refused',
 demo='''
func TestDemo(t *testing.T) {
	for k := 1; ; k++ {
		s := newStore()
		g := NewGraph(s)
		r, err := g.CreateStory("a", "b")
		ok(t, err)
		s.arm(k)
		r.AddFactToStory("b a", "a b")
		if !s.failed {
			break
		}
		s.arm(0)
		f, err := r.AddFactToStory("b a", "a b")
		ok(t, err)
		texts(t, f, "b a", "a b")
	}
}
''')

seed(id='c16-reopened-bits', property='C16',
 edits=[('internal/concrete/bit/layer.go', '''		case 2:
			var zeroClassIdentifier uint
			var oneClassIdentifier uint

			if classIdentifiers[0] < classIdentifiers[1] {
''', '''		case 2:
			var zeroClassIdentifier uint
			var oneClassIdentifier uint

			if classIdentifiers[0] > classIdentifiers[1] {
''')],
 needs='a second graph on a storage that was initialised by another one',
 breaks='zero and one are exchanged on a reopened storage',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	r, err := NewGraph(s).CreateStory("cat", "dog")
	ok(t, err)
	b, err := NewGraph(s).GetRemark(r.GetIdentifier())
	ok(t, err)
	texts(t, b, "cat", "dog")
}
''')

seed(id='c17-phrase-class', property='C17',
 edits=[('internal/concrete/class/entity.go', '	return e.phraseNode.Create()', '	return e.wordNode.Create()')],
 needs='the class of a phrase is asked for',
 breaks='phrases become members of the class of words',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	g := NewGraph(s)
	_, err := g.CreateStory("cat", "dog")
	ok(t, err)
	w, p := len(s.members(3)), len(s.members(4))
	_, err = g.CreateStory("dog", "cat")
	ok(t, err)
	if p != 2 || len(s.members(3)) != w || len(s.members(4)) != 2 {
		t.Fatalf("%d words, %d phrases", w, p)
	}
}
''')

seed(id='c17-story-node', property='C17',
 edits=[('internal/concrete/class/repository.go', '			node.NewStory(storyIdentifier, r.storage),', '			node.NewStory(factIdentifier, r.storage),')],
 needs='the class of a story is asked for',
 breaks='stories become members of the class of facts',
 imports=[I + 'class'],
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	_, err := NewGraph(s).CreateStory("cat", "dog")
	ok(t, err)
	if len(s.members(7)) != 1 || len(s.members(8)) != 1 {
		t.Fatalf("%d facts, %d stories", len(s.members(7)), len(s.members(8)))
	}
	e, err := class.NewRepository(s).ProvideEntity()
	ok(t, err)
	is, err := e.IsStory(s.members(8)[0])
	ok(t, err)
	if !is {
		t.Fatal("not a story")
	}
}
''')

seed(id='c18-word-class', property='C18',
 edits=[('internal/concrete/word/storage.go', '''func (s *Storage) ReadEntityByPhrase(phrase uint) (abstractWord.Entity, error) {

	word, _, err := s.storage.GetReference(phrase)
	if err != nil {
		return nil, err
	}

	character, _, err := s.storage.GetReference(word)
	if err != nil {
		return nil, err
	}

	class, _, err := s.storage.GetReference(character)
''', '''func (s *Storage) ReadEntityByPhrase(phrase uint) (abstractWord.Entity, error) {

	word, _, err := s.storage.GetReference(phrase)
	if err != nil {
		return nil, err
	}

	character, _, err := s.storage.GetReference(word)
	if err != nil {
		return nil, err
	}

	_, class, err := s.storage.GetReference(character)
''')],
 needs='a word is read by its phrase identifier and its class is used',
 breaks='the word read back carries a wrong class identifier',
 imports=[I + 'word'],
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	_, err := s.Create()
	ok(t, err)
	n, err := s.Create()
	ok(t, err)
	w := word.NewStorage(s)
	a, err := w.CreateEntity(n)
	ok(t, err)
	for _, f := range []func() (uint, uint, uint, uint, error){
		func() (uint, uint, uint, uint, error) {
			e, err := w.ReadEntityByClass(a.GetClass())
			return e.GetClass(), e.GetCharacter(), e.GetWord(), e.GetPhrase(), err
		},
		func() (uint, uint, uint, uint, error) {
			e, err := w.ReadEntityByPhrase(a.GetPhrase())
			return e.GetClass(), e.GetCharacter(), e.GetWord(), e.GetPhrase(), err
		},
	} {
		c, h, v, p, err := f()
		ok(t, err)
		if c != n || h != a.GetCharacter() || v != a.GetWord() || p != a.GetPhrase() {
			t.Fatal("another entity")
		}
	}
}
''')

seed(id='c18-detail-storage', property='C18',
 edits=[('internal/concrete/detail/storage.go', '''	class, _, err := s.storage.GetReference(phrase)
	if err != nil {
		return nil, err
	}

	return Entity{
		class:   class,
		phrase:  phrase,
		remark:  remark,
		storage: s.storage,
	}, nil
''', '''	class, _, err := s.storage.GetReference(phrase)
	if err != nil {
		return nil, err
	}

	return Entity{
		class:   class,
		phrase:  phrase,
		remark:  class,
		storage: s.storage,
	}, nil
''')],
 needs='a detail is read by its remark identifier and then pointed to another remark',
 breaks='the detail read back has its class in place of its remark identifier',
 imports=[I + 'detail'],
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	_, err := NewGraph(s).CreateStory("cat", "dog")
	ok(t, err)
	n := s.members(5)[0]
	d := detail.NewStorage(s)
	a, err := d.ReadEntityByClass(n)
	ok(t, err)
	b, err := d.ReadEntityByRemark(a.GetRemark())
	ok(t, err)
	if b.GetRemark() != a.GetRemark() || b.GetClass() != n || b.GetPhrase() != a.GetPhrase() {
		t.Fatal("another entity")
	}
}
''')

seed(id='c19-later-class', property='C19',
 edits=[('internal/concrete/class/node/remark.go', '	return targets[0] == r.identifier, nil', '	return targets[0] >= r.identifier, nil')],
 needs='GetRemark is called with the identifier of a fact or story (or of a node that leads to another node)',
 breaks='nodes that are not remarks are accepted as remarks',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	g := NewGraph(s)
	_, err := g.CreateStory("cat", "dog")
	ok(t, err)
	for c := uint(1); c <= 8; c++ {
		for _, n := range s.members(c) {
			_, err := g.GetRemark(n)
			if c != 6 && err == nil {
				t.Fatalf("%d of class %d accepted", n, c)
			}
		}
	}
}
''')

seed(id='c18-pending-story', property='C18',
 edits=[('internal/concrete/story/repository.go', '''type Repository struct {
	storyStorage    abstractStory.Storage
	classRepository abstractClass.Repository
}
''', '''type Repository struct {
	storyStorage    abstractStory.Storage
	classRepository abstractClass.Repository
	pending         uint
}
'''), ('internal/concrete/story/repository.go', '''	classIdentifier, err := class.CreateStory()
	if err != nil {
		return nil, err
	}
''', '''	// continue with the node an interrupted call has left behind
	classIdentifier := r.pending
	if classIdentifier == 0 {
		classIdentifier, err = class.CreateStory()
		if err != nil {
			return nil, err
		}

		r.pending = classIdentifier
	}
'''), ('internal/concrete/story/repository.go', '''	story, err := r.storyStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	return story, nil
''', '''	story, err := r.storyStorage.CreateEntity(classIdentifier)
	if err != nil {
		r.pending = 0
		return nil, err
	}

	return story, nil
''')],
 needs='two stories are created through one graph, and the first one is read by its class identifier',
 breaks='the second story takes over the class identifier of the first one, which then leads to the second',
 demo='''
func TestDemo(t *testing.T) {
	s := newStore()
	g := NewGraph(s)
	read := func() (r [4]uint) {
		for _, n := range s.members(8)[:1] {
			for k := range r {
				r[k] = n
				_, next, err := s.g.GetReference(n)
				ok(t, err)
				n = next
			}
		}
		return r
	}
	_, err := g.CreateStory("cat", "dog")
	ok(t, err)
	a := read()
	_, err = g.CreateStory("owl", "fox")
	ok(t, err)
	if b := read(); a != b {
		t.Fatalf("%v became %v", a, b)
	}
}
''')

seed(id='c20-same-text', property='C20',
 edits=[('internal/concrete/remark/aggregate.go', '''	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}
''', '''	aggregateObject, aggregateProperty, err := aggregateDetail.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}

	if aggregateProperty == property {
		return a, nil
	}
''')],
 needs='a remark is added with the property the remark it is called on has already',
 breaks='no new remark is made, an existing one is returned',
 demo='''
func TestDemo(t *testing.T) {
	r, err := NewGraph(newStore()).CreateStory("cat", "dog")
	ok(t, err)
	a, err := r.AddRemarkToFact("dog")
	ok(t, err)
	if a.GetIdentifier() == r.GetIdentifier() {
		t.Fatal("not a new remark")
	}
}
''')
