"""A third set of edits that keep the behaviour."""
SEEDS = []
C = 'internal/concrete/'
def text(path):
    return open('/repo/' + path).read()
def body(path, start):
    t = text(path)
    i = t.index(start)
    return t[i:t.index('\n}\n', i) + 3]
def fn(path, start, new):
    return (path, body(path, start), new.strip('\n') + '\n')
def sub(path, start, *pairs):
    """replaces inside one function"""
    b = n = body(path, start)
    for old, new in pairs:
        assert n.count(old) == 1, (path, start, old, n.count(old))
        n = n.replace(old, new)
    return (path, b, n)
def whole(path, f):
    t = text(path)
    n = f(t)
    assert n != t
    return (path, t, n)
def seed(id, *edits):
    SEEDS.append({'id': id, 'edits': list(edits)})

DS = C + 'detail/storage.go'
seed('t01-detail-create-order', sub(DS, 'func (s *Storage) CreateEntity', ('''	phrase, err := s.storage.Create()
	if err != nil {
		return nil, err
	}

	remark, err := s.storage.Create()
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(class, phrase)
	if err != nil {
		return nil, err
	}

''', '''	phrase, err := s.storage.Create()
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(class, phrase)
	if err != nil {
		return nil, err
	}

	remark, err := s.storage.Create()
	if err != nil {
		return nil, err
	}

''')))
seed('t02-detail-edges', sub(DS, 'func (s *Storage) CreateEntity', ('''	err = objectPhrase.AddTargetDetail(phrase)
	if err != nil {
		return nil, err
	}

	err = propertyPhrase.AddSourceDetail(phrase)
	if err != nil {
		return nil, err
	}
''', '''	if err = propertyPhrase.AddSourceDetail(phrase); err != nil {
		return nil, err
	}

	if err = objectPhrase.AddTargetDetail(phrase); err != nil {
		return nil, err
	}
''')))
seed('t03-extract-helper', fn(C + 'detail/aggregate.go', 'func (a Aggregate) GetObjectAndProperty', '''
func (a Aggregate) GetObjectAndProperty() (string, string, error) {

	objectIdentifier, propertyIdentifier, err := a.detail.GetObjectAndPropertyPhrases()
	if err != nil {
		return "", "", err
	}

	object, err := a.extractPhrase(objectIdentifier)
	if err != nil {
		return "", "", err
	}

	property, err := a.extractPhrase(propertyIdentifier)
	if err != nil {
		return "", "", err
	}

	return object, property, nil
}

func (a Aggregate) extractPhrase(identifier uint) (string, error) {

	phrase, err := a.phraseRepository.Fetch(identifier)
	if err != nil {
		return "", err
	}

	return phrase.Extract()
}
'''))
FA = C + 'fact/aggregate.go'
ST = '''	storyIdentifier, err := a.fact.GetTargetStory()
	if err != nil {
		return %s, err
	}

	story, err := a.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return %s, err
	}
'''
def factstory(t):
    for z in ('nil', 'false'):
        t = t.replace(ST % (z, z), '''	story, err := a.story()
	if err != nil {
		return %s, err
	}
''' % z)
    return t + '''
func (a Aggregate) story() (abstractStory.Entity, error) {

	identifier, err := a.fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	return a.storyRepository.FetchByFact(identifier)
}
'''
seed('t04-fact-story', whole(FA, factstory))
RA = C + 'remark/aggregate.go'
FT = '''	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return %s, err
	}

%s	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return %s, err
	}
'''
def remarkfact(t):
    for z in ('nil', 'false'):
        for g in ('', '\n'):
            t = t.replace(FT % (z, g, z), '''	fact, err := a.fact()
	if err != nil {
		return %s, err
	}
''' % z)
    return t + '''
func (a Aggregate) fact() (abstractFact.Aggregate, error) {

	identifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	return a.factRepository.FetchByRemark(identifier)
}
'''
seed('t05-remark-fact', whole(RA, remarkfact))
def around(t):
    for n in ('remark', 'nextRemark'):
        t = t.replace('''	return Aggregate{
		remark:           %s,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
''' % n, '''	return a.around(%s), nil
''' % n)
    return t + '''
func (a Aggregate) around(remark abstractRemark.Entity) Aggregate {
	a.remark = remark
	return a
}
'''
seed('t06-around', whole(RA, around))
CR = '''	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	// detail

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}
'''
def created(t):
    assert t.count(CR) == 2
    return t.replace(CR, '''	remark, err := a.createRemark(object, property)
	if err != nil {
		return nil, err
	}
''') + '''
func (a Aggregate) createRemark(object string, property string) (abstractRemark.Entity, error) {

''' + CR.replace('	// detail\n\n', '') + '''
	return remark, nil
}
'''
seed('t07-create-remark', whole(RA, created))
seed('t08-read-first', fn(RA, 'func (a Aggregate) AddRemarkToFact', '''
func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, error) {

	object, _, err := a.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	if err := detail.PointToRemark(remark.GetDetail()); err != nil {
		return nil, err
	}

	if err := remark.PointToFact(fact.GetRemark()); err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
}
'''))
FR = C + 'fact/repository.go'
seed('t09-next-fact-order', fn(FR, 'func (r *Repository) CreateNextFact', '''
func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}

	if err := nextFact.PointToStory(story.GetFact()); err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}
'''))
seed('t10-last-recursive', fn(FR, 'func (r *Repository) AppendFact', '''
func (r *Repository) AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error {

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return err
	}

	nextFact, err := r.factStorage.ReadEntityByRemark(nextRemarkIdentifier)
	if err != nil {
		return err
	}

	last, err := r.last(fact)
	if err != nil {
		return err
	}

	return last.PointToPosition(nextFact.GetPosition())
}

func (r *Repository) last(fact abstractFact.Entity) (abstractFact.Entity, error) {

	hasTargetFact, err := fact.HasTargetFact()
	if err != nil || !hasTargetFact {
		return fact, err
	}

	targetFact, err := fact.GetTargetFact()
	if err != nil {
		return nil, err
	}

	next, err := r.factStorage.ReadEntityByPosition(targetFact)
	if err != nil {
		return nil, err
	}

	return r.last(next)
}
'''))
SE = C + 'story/entity.go'
seed('t11-story-single', fn(SE, 'func (e Entity) GetTargetPosition', '''
func (e Entity) GetTargetPosition() (uint, error) {

	return e.singleTarget(e.position, "next stories")
}

func (e Entity) singleTarget(identifier uint, what string) (uint, error) {

	targets, err := e.storage.ReadTargets(identifier)
	if err != nil {
		return 0, err
	}

	switch len(targets) {
	case 1:
		return targets[0], nil
	default:
		return 0, fmt.Errorf("story has wrong number of %s", what)
	}
}
'''), fn(SE, 'func (e Entity) GetTargetFact', '''
func (e Entity) GetTargetFact() (uint, error) {

	return e.singleTarget(e.fact, "target facts")
}
'''), fn(SE, 'func (e Entity) GetTargetTree', '''
func (e Entity) GetTargetTree() (uint, error) {

	return e.singleTarget(e.tree, "target trees")
}
'''))
WE = C + 'word/element.go'
seed('t12-find-next', fn(WE, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(characterValue rune) (abstractWord.Element, error) {

	next, found, err := e.findNext(characterValue)
	if err != nil {
		return nil, err
	}

	if !found {
		next, err = e.createNext(characterValue)
		if err != nil {
			return nil, err
		}
	}

	return Element{
		word:                next,
		wordStorage:         e.wordStorage,
		wordFactory:         e.wordFactory,
		classRepository:     e.classRepository,
		characterRepository: e.characterRepository,
	}, nil
}

func (e Element) findNext(characterValue rune) (abstractWord.Entity, bool, error) {

	identifiers, err := e.word.GetTargetWords()
	if err != nil {
		return nil, false, err
	}

	for i := 0; i < len(identifiers); i++ {

		candidate, err := e.wordStorage.ReadEntityByWord(identifiers[i])
		if err != nil {
			return nil, false, err
		}

		character, err := candidate.GetTargetCharacter()
		if err != nil {
			return nil, false, err
		}

		aggregate, err := e.characterRepository.Fetch(character)
		if err != nil {
			return nil, false, err
		}

		value, err := aggregate.Extract()
		if err != nil {
			return nil, false, err
		}

		if value != characterValue {
			continue
		}

		return candidate, true, nil
	}

	return nil, false, nil
}

func (e Element) createNext(characterValue rune) (abstractWord.Entity, error) {

	class, err := e.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	character, err := e.characterRepository.Provide(characterValue)
	if err != nil {
		return nil, err
	}

	return e.wordFactory.CreateTailEntity(class, character, e.word)
}
'''))
CE = C + 'character/element.go'
seed('t13-found-flag', sub(CE, 'func (e Element) ProvideNextElement', ('''	for _, targetCharacter := range targetCharacters {
		targetBitIdentifier''', '''	found := -1
	for i, targetCharacter := range targetCharacters {
		targetBitIdentifier'''), ('''		if bitValue == targetValue {
			return Element{
				character:        targetCharacter,
				characterStorage: e.characterStorage,
				characterFactory: e.characterFactory,
				classRepository:  e.classRepository,
				bitRepository:    e.bitRepository,
			}, nil
		}
	}
''', '''		if targetValue == bitValue {
			found = i
			break
		}
	}

	if found >= 0 {
		return Element{
			character:        targetCharacters[found],
			characterStorage: e.characterStorage,
			characterFactory: e.characterFactory,
			classRepository:  e.classRepository,
			bitRepository:    e.bitRepository,
		}, nil
	}
''')))
seed('t14-is-identity', sub(CE, 'func (e Element) ProvideNextElement', ('''		targetValue := targetBit.Bit()

		if bitValue == targetValue {
''', '''		if targetBit.Is(bitValue) {
''')))
seed('t15-builder-fprintf', ('output.go', '''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''', '''		fmt.Fprintf(&buffer, "%s %s ", object, property)
'''), ('output.go', 'import "bytes"', 'import (\n\t"bytes"\n\t"fmt"\n)'))
seed('t16-parts', fn('output.go', 'func (o *Output) GetStory', '''
func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	var parts []string

	for {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		parts = append(parts, object+" "+property+" ")

		hasNextRemark, err := factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}

		if !hasNextRemark {
			return strings.Join(parts, ""), nil
		}

		factRemark, err = factRemark.GetNextRemark()
		if err != nil {
			return "", err
		}
	}
}
'''), ('output.go', 'import "bytes"', 'import "strings"'))
seed('t17-write-remark', fn('output.go', 'func (o *Output) GetStory', '''
func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	var buffer bytes.Buffer

	for more := true; more; {
		if err := o.write(&buffer, factRemark); err != nil {
			return "", err
		}

		more, err = factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}

		if more {
			factRemark, err = factRemark.GetNextRemark()
			if err != nil {
				return "", err
			}
		}
	}

	return buffer.String(), nil
}

func (o *Output) write(buffer *bytes.Buffer, remark abstractRemark.Aggregate) error {

	object, property, err := remark.GetObjectAndProperty()
	if err != nil {
		return err
	}

	buffer.WriteString(object)
	buffer.WriteByte(' ')
	buffer.WriteString(property)
	buffer.WriteByte(' ')

	return nil
}
'''), ('output.go', 'import "bytes"', 'import (\n\t"bytes"\n\tabstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"\n)'))
seed('t19-set', (C + 'detail/factory.go', '''	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''', '''	isObjectDetail := make(map[uint]bool, len(objectTargetDetails))
	for _, objectTargetDetail := range objectTargetDetails {
		isObjectDetail[objectTargetDetail] = true
	}

	for _, propertySourceDetail := range propertySourceDetails {
		if isObjectDetail[propertySourceDetail] {
			commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
		}
	}
'''))
seed('t21-extract-join', fn(C + 'phrase/aggregate.go', 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (string, error) {

	element := a.phraseElements.CreateLastElement(a.phrase)

	text, err := element.ExtractWordValue()
	if err != nil {
		return "", err
	}

	for {
		hasPrevious, err := element.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPrevious {
			return text, nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return "", err
		}

		word, err := element.ExtractWordValue()
		if err != nil {
			return "", err
		}

		text = word + " " + text
	}
}
'''))
seed('t22-extract-weight', fn(C + 'character/aggragate.go', 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (rune, error) {

	element := a.characterElements.CreateLastElement(a.character)

	var integer rune
	weight := rune(1)

	for {
		bit, err := element.ExtractBitValue()
		if err != nil {
			return 0, err
		}

		if bit {
			integer += weight
		}
		weight <<= 1

		hasPrevious, err := element.HasPreviousElement()
		if err != nil {
			return 0, err
		}

		if !hasPrevious {
			return integer, nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return 0, err
		}
	}
}
'''))
seed('t23-bits-by-shift', fn(C + 'character/paths.go', 'func (p *paths) collect', '''
func (p *paths) collect(integer rune) (path, error) {

	if integer < 0 {
		return path{}, fmt.Errorf("invalid character: %d", integer)
	}

	bits := path{}

	for {
		bits = append(bits, integer%2 == 1)
		integer /= 2
		if integer == 0 {
			break
		}
	}

	return bits.reverse(), nil
}
'''))
seed('t24-no-second-link', sub(WE, 'func (e Element) ProvideNextElement', ('''	err = e.word.PointToWord(newWord.GetWord())
	if err != nil {
		return nil, err
	}

''', '')))
BR = C + 'bit/repository.go'
seed('t25-bit-switch', sub(BR, 'func (r *Repository) Fetch', ('''	if identifier == zeroEntity.GetCharacter() {
		return zeroEntity, nil
	}

	if identifier == oneEntity.GetCharacter() {
		return oneEntity, nil
	}

	return Entity{}, fmt''', '''	for _, entity := range []Entity{zeroEntity, oneEntity} {
		if entity.GetCharacter() == identifier {
			return entity, nil
		}
	}

	return Entity{}, fmt''')), sub(BR, 'func (r *Repository) Provide', ('''	if value {
		return oneEntity, nil
	} else {
		return zeroEntity, nil
	}
''', '''	if zeroEntity.Is(value) {
		return zeroEntity, nil
	}

	return oneEntity, nil
''')))
L = C + 'bit/layer.go'
def layer(t):
    b = t.index('func (l *layer) initialize')
    t = t[:b] + t[b:].replace('''			if classIdentifiers[0] < classIdentifiers[1] {
				zeroClassIdentifier = classIdentifiers[0]
				oneClassIdentifier = classIdentifiers[1]
			} else {
				zeroClassIdentifier = classIdentifiers[1]
				oneClassIdentifier = classIdentifiers[0]
			}
''', '''			zeroClassIdentifier, oneClassIdentifier = ordered(classIdentifiers[0], classIdentifiers[1])
''')
    return t + '''
func ordered(first uint, second uint) (uint, uint) {
	if second < first {
		return second, first
	}
	return first, second
}
'''
seed('t26-ordered', whole(L, layer))
seed('t27-guard-clause', fn(L, 'func (l *layer) initialize', body(L, 'func (l *layer) initialize').replace('	if !l.isInitialized {\n', '''	if l.isInitialized {
		return l.zeroEntity, l.oneEntity, nil
	}

	{
''')))
CN = C + 'class/node/'
seed('t28-node-link', (CN + 'remark.go', '''	err = r.storage.Connect(identifier, r.identifier)
	if err != nil {
		return 0, err
	}

	return identifier, nil
''', '''	return identifier, join(r.storage, identifier, r.identifier)
'''), (CN + 'remark.go', 'func NewRemark(', '''func join(storage storage, identifier uint, class uint) error {
	return storage.Connect(identifier, class)
}

func NewRemark('''))
seed('t29-graph-wrap', fn('graph.go', 'func (g *Graph) CreateStory', '''
func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	return wrap(g.remarkRepository.CreateFirstUserRemark(object, property))
}

func wrap(aggregate abstractRemark.Aggregate, err error) (Remark, error) {

	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
'''), fn('graph.go', 'func (g *Graph) GetRemark', '''
func (g *Graph) GetRemark(remarkIdentifier uint) (Remark, error) {

	return wrap(g.remarkRepository.GetRemark(remarkIdentifier))
}
'''), ('graph.go', '	"github.com/mem-memov/semnet/internal/abstract"\n', '	"github.com/mem-memov/semnet/internal/abstract"\n	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"\n'))
seed('t30-sibling-helper', fn(FR, 'func (r *Repository) AppendChildStory', '''
func (r *Repository) AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error {

	parent, err := r.storyOf(remarkIdentifier)
	if err != nil {
		return err
	}

	child, err := r.storyOf(childRemarkIdentifier)
	if err != nil {
		return err
	}

	hasChildren, err := parent.HasSourceTree()
	if err != nil {
		return err
	}

	if !hasChildren {
		return child.PointToTree(parent.GetTree())
	}

	sourceTree, err := parent.GetSourceTree()
	if err != nil {
		return err
	}

	sibling, err := r.storyRepository.FetchByTree(sourceTree)
	if err != nil {
		return err
	}

	if err := child.PointToTree(parent.GetTree()); err != nil {
		return err
	}

	for {
		hasNext, err := sibling.HasTargetPosition()
		if err != nil {
			return err
		}

		if !hasNext {
			return sibling.PointToPosition(child.GetPosition())
		}

		position, err := sibling.GetTargetPosition()
		if err != nil {
			return err
		}

		sibling, err = r.storyRepository.FetchByPosition(position)
		if err != nil {
			return err
		}
	}
}

func (r *Repository) storyOf(remarkIdentifier uint) (abstractStory.Entity, error) {

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	return r.storyRepository.FetchByFact(storyIdentifier)
}
'''))
