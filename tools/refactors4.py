"""A fourth set of edits that keep the behaviour: language features the code does not use so far."""
from refactors3 import text, body, fn, sub, whole, C
SEEDS = []
def seed(id, *edits):
    SEEDS.append({'id': id, 'edits': list(edits)})

RA, RR = C + 'remark/aggregate.go', C + 'remark/repository.go'
FR, FA = C + 'fact/repository.go', C + 'fact/aggregate.go'
WE, WF, WS = C + 'word/element.go', C + 'word/factory.go', C + 'word/storage.go'
DR, DF = C + 'detail/repository.go', C + 'detail/factory.go'

seed('u01-defer-wrap', fn(RR, 'func (r *Repository) GetRemark', '''
func (r *Repository) GetRemark(remarkIdentifier uint) (aggregate abstractRemark.Aggregate, err error) {

	defer func() {
		if err != nil {
			err = fmt.Errorf("remark %d: %w", remarkIdentifier, err)
		}
	}()

	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	isRemark, err := class.IsRemark(remark.GetClass())
	if err != nil {
		return nil, err
	}

	if !isRemark {
		return nil, fmt.Errorf("identifier does not belong to a remark")
	}

	return Aggregate{
		remark:           remark,
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}, nil
}
'''))
seed('u02-method-value', fn(RA, 'func (a Aggregate) HasNextFact', '''
func (a Aggregate) HasNextFact() (bool, error) {

	return a.ask(abstractFact.Aggregate.HasNextFact)
}

func (a Aggregate) ask(question func(abstractFact.Aggregate) (bool, error)) (bool, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return false, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return false, err
	}

	return question(fact)
}
'''), fn(RA, 'func (a Aggregate) HasNextStory', '''
func (a Aggregate) HasNextStory() (bool, error) {

	return a.ask(abstractFact.Aggregate.HasNextStory)
}
'''))
seed('u03-go-to', fn(RA, 'func (a Aggregate) GetNextFact', '''
func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {

	return a.move(func(fact abstractFact.Aggregate) (abstractFact.Aggregate, error) {
		return fact.ToNextFact()
	})
}

func (a Aggregate) move(step func(abstractFact.Aggregate) (abstractFact.Aggregate, error)) (abstractRemark.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	target, err := step(fact)
	if err != nil {
		return nil, err
	}

	first, err := target.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.ReadEntityByFact(first)
	if err != nil {
		return nil, err
	}

	return a.with(remark), nil
}

func (a Aggregate) with(remark abstractRemark.Entity) Aggregate {

	a.remark = remark

	return a
}
'''), fn(RA, 'func (a Aggregate) GetFirstFact', '''
func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {

	return a.move(abstractFact.Aggregate.ToFirstFact)
}
'''), fn(RA, 'func (a Aggregate) GetNextStory', '''
func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {

	return a.move(abstractFact.Aggregate.ToNextStory)
}
'''))
seed('u04-steps', sub(RA, 'func (a Aggregate) AddFactToStory', ('''	err = remark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	err = a.factRepository.AppendFact(factIdentifier, nextFact.GetRemark())
	if err != nil {
		return nil, err
	}
''', '''	steps := []func() error{
		func() error { return remark.PointToFact(nextFact.GetRemark()) },
		func() error { return nextFact.PointToRemark(remark.GetFact()) },
		func() error { return a.factRepository.AppendFact(factIdentifier, nextFact.GetRemark()) },
	}

	for _, step := range steps {
		if err := step(); err != nil {
			return nil, err
		}
	}
''')))
seed('u05-sticky-error', fn(WS, 'func (s *Storage) CreateEntity', '''
func (s *Storage) CreateEntity(class uint) (abstractWord.Entity, error) {

	l := &linker{storage: s.storage}

	character := l.create(class)
	word := l.create(character)
	phrase := l.create(word)

	if l.err != nil {
		return nil, l.err
	}

	return Entity{
		class:     class,
		character: character,
		word:      word,
		phrase:    phrase,
		storage:   s.storage,
	}, nil
}

type linker struct {
	storage abstract.Storage
	err     error
}

func (l *linker) create(previous uint) uint {

	if l.err != nil {
		return 0
	}

	identifier, err := l.storage.Create()
	if err != nil {
		l.err = err
		return 0
	}

	l.err = l.storage.SetReference(previous, identifier)

	return identifier
}
'''))
seed('u06-goto', sub(FR, 'func (r *Repository) AppendFact', ('''	for {
		hasTargetFact, err := fact.HasTargetFact()
		if err != nil {
			return err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := fact.GetTargetFact()
		if err != nil {
			return err
		}

		fact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return err
		}
	}

	return''', '''	has, err := fact.HasTargetFact()
	for has && err == nil {
		var target uint

		if target, err = fact.GetTargetFact(); err != nil {
			break
		}

		if fact, err = r.factStorage.ReadEntityByPosition(target); err != nil {
			break
		}

		has, err = fact.HasTargetFact()
	}

	if err != nil {
		return err
	}

	return''')))
seed('u07-nested', fn(DR, 'func (r *Repository) Fetch', '''
func (r *Repository) Fetch(remark uint) (result abstractDetail.Aggregate, err error) {

	var detail abstractDetail.Entity

	if detail, err = r.detailStorage.ReadEntityByRemark(remark); err == nil {
		result = Aggregate{
			detail:           detail,
			detailStorage:    r.detailStorage,
			detailFactory:    r.detailFactory,
			classRepository:  r.classRepository,
			phraseRepository: r.phraseRepository,
		}
	}

	return
}
'''))
seed('u08-phrases-array', sub(DR, 'func (r *Repository) Provide', ('''	objectPhrase, err := r.phraseRepository.Provide(object)
	if err != nil {
		return nil, err
	}

	propertyPhrase, err := r.phraseRepository.Provide(property)
	if err != nil {
		return nil, err
	}
''', '''	var phrases [2]abstractPhrase.Aggregate

	for i, text := range [2]string{object, property} {
		phrase, err := r.phraseRepository.Provide(text)
		if err != nil {
			return nil, err
		}

		phrases[i] = phrase
	}
'''), ('(class, objectPhrase, propertyPhrase)', '(class, phrases[0], phrases[1])')))
seed('u09-candidate-struct', sub(WE, 'func (e Element) ProvideNextElement', ('''	targetWords := make([]abstractWord.Entity, 0, len(targetWordIdentifiers))
	for _, targetWordIdentifier := range targetWordIdentifiers {

		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, err
		}

		targetWords = append(targetWords, targetWord)
	}

	// use existing
	for _, targetWord := range targetWords {
		targetCharacterIdentifier, err := targetWord.GetTargetCharacter()
		if err != nil {
			return nil, err
		}
''', '''	type candidate struct {
		word      abstractWord.Entity
		character uint
	}

	candidates := make([]candidate, 0)
	for _, targetWordIdentifier := range targetWordIdentifiers {

		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, err
		}

		targetCharacterIdentifier, err := targetWord.GetTargetCharacter()
		if err != nil {
			return nil, err
		}

		candidates = append(candidates, candidate{word: targetWord, character: targetCharacterIdentifier})
	}

	// use existing
	for _, c := range candidates {
		targetWord, targetCharacterIdentifier := c.word, c.character
''')))
seed('u10-const-names', whole('output.go', lambda t: t.replace('buffer.WriteString(" ")', 'buffer.WriteString(separator)', 1).replace('type Output struct', 'const separator = " "\n\ntype Output struct')))
seed('u11-cursor', fn(C + 'word/aggregate.go', 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (string, error) {

	c := cursor{element: a.wordElements.CreateLastElement(a.word), more: true}

	for c.more && c.err == nil {
		c.step()
	}

	if c.err != nil {
		return "", c.err
	}

	return path(c.values).reverse().toString(), nil
}

type cursor struct {
	element abstractWord.Element
	values  []rune
	more    bool
	err     error
}

func (c *cursor) step() {

	value, err := c.element.ExtractCharacterValue()
	if err != nil {
		c.err = err
		return
	}

	c.values = append(c.values, value)

	c.more, c.err = c.element.HasPreviousElement()
	if c.err != nil || !c.more {
		return
	}

	c.element, c.err = c.element.GetPreviousElement()
}
'''))
seed('u12-embed', whole(RA, lambda t: t.replace('''type Aggregate struct {
	remark           abstractRemark.Entity
	remarkStorage    abstractRemark.Storage
	classRepository  abstractClass.Repository
	detailRepository abstractDetail.Repository
	factRepository   abstractFact.Repository
}
''', '''type services struct {
	remarkStorage    abstractRemark.Storage
	classRepository  abstractClass.Repository
	detailRepository abstractDetail.Repository
	factRepository   abstractFact.Repository
}

type Aggregate struct {
	services
	remark abstractRemark.Entity
}
''').replace('''		remark:           nextRemark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
''', '''		services: a.services,
		remark:   nextRemark,
''').replace('''		remark:           remark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
''', '''		services: a.services,
		remark:   remark,
''')), whole(RR, lambda t: t.replace('''		remark:           remark,
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
''', '''		services: services{
			remarkStorage:    r.remarkStorage,
			classRepository:  r.classRepository,
			detailRepository: r.detailRepository,
			factRepository:   r.factRepository,
		},
		remark: remark,
''')))
seed('u13-extract-builder', fn(C + 'phrase/aggregate.go', 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (string, error) {

	element := a.phraseElements.CreateLastElement(a.phrase)

	text, err := element.ExtractWordValue()
	if err != nil {
		return "", err
	}

	for {
		more, err := element.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !more {
			return text, nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return "", err
		}

		value, err := element.ExtractWordValue()
		if err != nil {
			return "", err
		}

		text = value + " " + text
	}
}
'''))
seed('u14-labelled', sub(DF, 'func (f *Factory) ProvideEntity', ('''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (cut tails, use map, sort)
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}

	switch len(commonDetailIdentifiers) {
	case 0:
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
	case 1:
		return f.storage.ReadEntityByPhrase(commonDetailIdentifiers[0])
	default:
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}
''', '''	var common uint
	count := 0

outer:
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail != objectTargetDetail {
				continue
			}

			common = objectTargetDetail
			count++

			continue outer
		}
	}

	if count > 1 {
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}

	if count == 1 {
		return f.storage.ReadEntityByPhrase(common)
	}

	return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
''')))
seed('u16-type-switch', fn(C + 'class/entity.go', 'func (e Entity) IsRemark', body(C + 'class/entity.go', 'func (e Entity) IsRemark').replace('\treturn ', '\tresult, err := ', 1).replace('\n}\n', '\n\tswitch {\n\tcase err != nil:\n\t\treturn false, err\n\tcase result:\n\t\treturn true, nil\n\t}\n\n\treturn false, nil\n}\n')))
seed('u17-copy-append', fn(C + 'word/path.go', 'func (p path) reverse', '''
func (p path) reverse() path {

	reversed := append(path{}, p...)

	for i := 0; i < len(reversed)/2; i++ {
		j := len(reversed) - 1 - i
		reversed[i], reversed[j] = reversed[j], reversed[i]
	}

	return reversed
}
'''))
seed('u18-copy', fn(C + 'phrase/path.go', 'func (p path) reverse', '''
func (p path) reverse() path {

	reversed := make(path, len(p))
	copy(reversed, p)

	for i, j := 0, len(reversed)-1; i < j; i, j = i+1, j-1 {
		reversed[i], reversed[j] = reversed[j], reversed[i]
	}

	return reversed
}
'''))
seed('u19-bits-recursive', fn(C + 'character/aggragate.go', 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (rune, error) {

	return number(a.characterElements.CreateLastElement(a.character))
}

func number(element abstractCharacter.Element) (rune, error) {

	bitValue, err := element.ExtractBitValue()
	if err != nil {
		return 0, err
	}

	has, err := element.HasPreviousElement()
	if err != nil {
		return 0, err
	}

	var high rune

	if has {
		previous, err := element.GetPreviousElement()
		if err != nil {
			return 0, err
		}

		high, err = number(previous)
		if err != nil {
			return 0, err
		}
	}

	high *= 2

	if bitValue {
		high++
	}

	return high, nil
}
'''))
seed('u20-check-first', sub(RA, 'func (a Aggregate) AddRemarkToFact', ('''	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

''', ''), ('''	err = detail.PointToRemark(remark.GetDetail())
''', '''	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
''')))
seed('u21-bit-table', fn(C + 'bit/repository.go', 'func (r *Repository) Provide', '''
func (r *Repository) Provide(value bool) (abstractBit.Entity, error) {

	zero, one, err := r.layer.initialize()
	if err != nil {
		return nil, err
	}

	entities := [2]Entity{zero, one}

	index := 0
	if value {
		index = 1
	}

	return entities[index], nil
}
'''))
