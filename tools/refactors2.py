"""More edits that keep the behaviour."""
SEEDS = []
C = 'internal/concrete/'
def body(path, start):
    t = open('/repo/' + path).read()
    i = t.index(start)
    return t[i:t.index('\n}\n', i) + 3]
def fn(path, start, new):
    return (path, body(path, start), new.strip('\n') + '\n')
def seed(id, *edits):
    SEEDS.append({'id': id, 'edits': list(edits)})
def imp(path, old, new):
    return (path, old, new)

seed('s01-class-loop', (C + 'class/repository.go', body(C + 'class/repository.go', 'func (r *Repository) ProvideEntity')[
    body(C + 'class/repository.go', 'func (r *Repository) ProvideEntity').index('\t\tif !hasFirstNode {'):body(C + 'class/repository.go', 'func (r *Repository) ProvideEntity').index('\t\tr.entity = newEntity(')], '''		if !hasFirstNode {
			names := []string{"bit", "character", "word", "phrase", "detail", "position", "fact", "story"}

			for identifier := bitIdentifier; identifier <= storyIdentifier; identifier++ {
				result, err := r.storage.Create()
				if err != nil {
					return Entity{}, err
				}

				if result != identifier {
					return Entity{}, fmt.Errorf("wrong %s class node %d", names[identifier-1], result)
				}

				if identifier > bitIdentifier {
					err = r.storage.SetReference(identifier-1, identifier)
					if err != nil {
						return Entity{}, err
					}
				}
			}
		}

'''))
seed('s02-class-helper', (C + 'class/repository.go', '''			result, err = r.storage.Create()
			if err != nil {
				return Entity{}, err
			}

			if result != factIdentifier {
				return Entity{}, fmt.Errorf("wrong fact class node %d", result)
			}

			err = r.storage.SetReference(remarkIdentifier, factIdentifier)
			if err != nil {
				return Entity{}, err
			}
''', '''			err = r.createClass(factIdentifier, remarkIdentifier, "fact")
			if err != nil {
				return Entity{}, err
			}
'''), (C + 'class/repository.go', '', '''
func (r *Repository) createClass(expected uint, previous uint, name string) error {

	result, err := r.storage.Create()
	if err != nil {
		return err
	}

	if result != expected {
		return fmt.Errorf("wrong %s class node %d", name, result)
	}

	return r.storage.SetReference(previous, expected)
}
'''))
L = C + 'bit/layer.go'
t = body(L, 'func (l *layer) initialize')
seed('s03-bit-helpers', (L, t[t.index('\t\tcase 2:'):t.index('\t\tdefault:')], '''		case 2:
			zeroClassIdentifier, oneClassIdentifier := inOrder(classIdentifiers[0], classIdentifiers[1])

			var err error

			l.zeroEntity, err = l.read(false, zeroClassIdentifier)
			if err != nil {
				return Entity{}, Entity{}, err
			}

			l.oneEntity, err = l.read(true, oneClassIdentifier)
			if err != nil {
				return Entity{}, Entity{}, err
			}
'''), (L, '', '''
func inOrder(a uint, b uint) (uint, uint) {

	if a < b {
		return a, b
	}

	return b, a
}

func (l *layer) read(value bool, class uint) (Entity, error) {

	_, character, err := l.storage.GetReference(class)
	if err != nil {
		return Entity{}, err
	}

	return newEntity(value, class, character, l.storage), nil
}
'''))
for K, val, ty in (('word', 'characterValue', 'rune'),):
    p = C + 'word/element.go'
    seed('s04-find-helper', fn(p, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(characterValue rune) (abstractWord.Element, error) {

	found, ok, err := e.find(characterValue)
	if err != nil {
		return nil, err
	}

	if ok {
		return e.with(found), nil
	}

	class, err := e.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	character, err := e.characterRepository.Provide(characterValue)
	if err != nil {
		return nil, err
	}

	newWord, err := e.wordFactory.CreateTailEntity(class, character, e.word)
	if err != nil {
		return nil, err
	}

	err = e.word.PointToWord(newWord.GetWord())
	if err != nil {
		return nil, err
	}

	return e.with(newWord), nil
}

func (e Element) with(word abstractWord.Entity) Element {

	return Element{
		word:                word,
		wordStorage:         e.wordStorage,
		wordFactory:         e.wordFactory,
		classRepository:     e.classRepository,
		characterRepository: e.characterRepository,
	}
}

func (e Element) find(characterValue rune) (abstractWord.Entity, bool, error) {

	targetWordIdentifiers, err := e.word.GetTargetWords()
	if err != nil {
		return nil, false, err
	}

	for _, targetWordIdentifier := range targetWordIdentifiers {

		targetWord, err := e.wordStorage.ReadEntityByWord(targetWordIdentifier)
		if err != nil {
			return nil, false, err
		}

		value, err := e.with(targetWord).ExtractCharacterValue()
		if err != nil {
			return nil, false, err
		}

		if value == characterValue {
			return targetWord, true, nil
		}
	}

	return nil, false, nil
}
'''))
F_ = C + 'detail/factory.go'
seed('s05-common-helper', (F_, '''	commonDetailIdentifiers := make([]uint, 0, 1)

	// TODO: optimize (cut tails, use map, sort)
	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
		}
	}
''', '''	commonDetailIdentifiers := intersect(objectTargetDetails, propertySourceDetails)
'''), (F_, '', '''
func intersect(left []uint, right []uint) []uint {

	var common []uint

	for i := 0; i < len(left); i++ {
		for j := range right {
			if left[i] != right[j] {
				continue
			}
			common = append(common, left[i])
		}
	}

	return common
}
'''))
seed('s06-count-common', (F_, body(F_, 'func (f *Factory) ProvideEntity')[body(F_, 'func (f *Factory) ProvideEntity').index('\tcommonDetailIdentifiers := make'):], '''	count := 0
	var common uint

	for _, objectTargetDetail := range objectTargetDetails {
		for _, propertySourceDetail := range propertySourceDetails {
			if propertySourceDetail == objectTargetDetail {
				common = propertySourceDetail
				count++
			}
		}
	}

	if count == 0 {
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
	}

	if count == 1 {
		return f.storage.ReadEntityByPhrase(common)
	}

	return Entity{}, fmt.Errorf("phrases have too many common details")
}
'''))
A = C + 'remark/aggregate.go'
seed('s07-fact-helper', fn(A, 'func (a Aggregate) GetNextFact', '''
func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {

	fact, err := a.ownFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}

	return a.firstOf(nextFact)
}

func (a Aggregate) ownFact() (abstractFact.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	return a.factRepository.FetchByRemark(factIdentifier)
}

func (a Aggregate) firstOf(fact abstractFact.Aggregate) (abstractRemark.Aggregate, error) {

	remarkFact, err := fact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	a.remark = remark

	return a, nil
}
'''), fn(A, 'func (a Aggregate) GetFirstFact', '''
func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {

	fact, err := a.ownFact()
	if err != nil {
		return nil, err
	}

	firstFact, err := fact.ToFirstFact()
	if err != nil {
		return nil, err
	}

	return a.firstOf(firstFact)
}
'''), fn(A, 'func (a Aggregate) HasNextFact', '''
func (a Aggregate) HasNextFact() (bool, error) {

	fact, err := a.ownFact()
	if err != nil {
		return false, err
	}

	return fact.HasNextFact()
}
'''))
W = C + 'word/storage.go'
seed('s08-link-variadic', (W, '''	err = s.storage.SetReference(class, character)
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(character, word)
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(word, phrase)
	if err != nil {
		return nil, err
	}
''', '''	err = s.chain(class, character, word, phrase)
	if err != nil {
		return nil, err
	}
'''), (W, '', '''
func (s *Storage) chain(identifiers ...uint) error {

	for i := 1; i < len(identifiers); i++ {
		err := s.storage.SetReference(identifiers[i-1], identifiers[i])
		if err != nil {
			return err
		}
	}

	return nil
}
'''))
seed('s09-output-loop', fn('output.go', 'func (o *Output) GetStory', '''
func (o *Output) GetStory(remark Remark) (string, error) {

	factRemark, err := remark.GetFirstFact()
	if err != nil {
		return "", err
	}

	var builder strings.Builder

	for hasNextRemark := true; hasNextRemark; {
		object, property, err := factRemark.GetObjectAndProperty()
		if err != nil {
			return "", err
		}

		builder.WriteString(object + " " + property)
		builder.WriteByte(' ')

		hasNextRemark, err = factRemark.HasNextRemark()
		if err != nil {
			return "", err
		}

		if hasNextRemark {
			factRemark, err = factRemark.GetNextRemark()
			if err != nil {
				return "", err
			}
		}
	}

	return builder.String(), nil
}
'''), ('output.go', 'import "bytes"', 'import "strings"'))
P = C + 'character/paths.go'
seed('s10-strconv', fn(P, 'func (p *paths) collect', '''
func (p *paths) collect(integer rune) (path, error) {

	bitNames := strconv.FormatInt(int64(integer), 2)

	bitValues := make(path, 0, len(bitNames))

	for i := 0; i < len(bitNames); i++ {
		switch bitNames[i] {
		case '0':
			bitValues = append(bitValues, false)
		case '1':
			bitValues = append(bitValues, true)
		default:
			return path{}, fmt.Errorf("invalid bit name: %c", bitNames[i])
		}
	}

	return bitValues, nil
}
'''), (P, '''import (
	"fmt"
''', '''import (
	"fmt"
	"strconv"
'''))
seed('s11-reverse-range', fn(C + 'word/path.go', 'func (p path) reverse', '''
func (p path) reverse() path {

	reversed := make(path, len(p))

	for i, value := range p {
		reversed[len(p)-1-i] = value
	}

	return reversed
}
'''))
seed('s12-reverse-append', fn(C + 'phrase/path.go', 'func (p path) reverse', '''
func (p path) reverse() path {

	reversed := make([]string, 0, len(p))

	for i := len(p) - 1; i >= 0; i-- {
		reversed = append(reversed, p[i])
	}

	return reversed
}
'''))
seed('s13-value-from-end', (C + 'character/aggragate.go', '''	for _, bitValue := range path.reverse() {
		integer <<= 1
		if bitValue {
			integer += 1
		}
	}
''', '''	for i := len(path) - 1; i >= 0; i-- {
		integer *= 2
		if path[i] {
			integer++
		}
	}
'''))
seed('s14-join-by-hand', fn(C + 'phrase/path.go', 'func (p path) toString', '''
func (p path) toString() string {

	var builder strings.Builder

	for i, word := range p {
		if i > 0 {
			builder.WriteString(" ")
		}
		builder.WriteString(word)
	}

	return builder.String()
}
'''))
R_ = C + 'class/node/'
seed('s15-is-shared', fn(R_ + 'remark.go', 'func (r Remark) Is', '''
func (r Remark) Is(identifier uint) (bool, error) {

	return isMember(r.storage, identifier, r.identifier, "position")
}
'''), (R_ + 'remark.go', '', '''
func isMember(storage storage, identifier uint, class uint, name string) (bool, error) {

	targets, err := storage.ReadTargets(identifier)
	if err != nil {
		return false, err
	}

	if len(targets) == 1 {
		return targets[0] == class, nil
	}

	return false, fmt.Errorf("wrong number of targets at %s class node %d", name, identifier)
}
'''))
FR = C + 'fact/repository.go'
seed('s16-for-header', (FR, '''	for {
		hasTargetFact, err := fact.HasTargetFact()
		if err != nil {
			return err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := fact.GetTargetFact()
		if err != nil {
			return err
		}

		fact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return err
		}
	}

	return fact.PointToPosition(nextFact.GetPosition())
''', '''	hasTargetFact, err := fact.HasTargetFact()
	for ; err == nil && hasTargetFact; hasTargetFact, err = fact.HasTargetFact() {
		var targetFact uint

		targetFact, err = fact.GetTargetFact()
		if err != nil {
			return err
		}

		fact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return err
		}
	}

	if err != nil {
		return err
	}

	return fact.PointToPosition(nextFact.GetPosition())
'''))
seed('s17-sibling-helper', (FR, '''		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return err
		}
''', '''		lastStory, err := r.lastSibling(siblingStory)
		if err != nil {
			return err
		}

		return lastStory.PointToPosition(childStory.GetPosition())
'''), (FR, '', '''
func (r *Repository) lastSibling(story abstractStory.Entity) (last abstractStory.Entity, err error) {

	last = story

	for {
		var more bool

		more, err = last.HasTargetPosition()
		if err != nil || !more {
			return
		}

		var position uint

		position, err = last.GetTargetPosition()
		if err != nil {
			return
		}

		last, err = r.storyRepository.FetchByPosition(position)
		if err != nil {
			return
		}
	}
}
'''))
seed('s18-closure', (A, '''	err = remark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	err = a.factRepository.AppendFact(factIdentifier, nextFact.GetRemark())
	if err != nil {
		return nil, err
	}
''', '''	join := func() error {
		if err := remark.PointToFact(nextFact.GetRemark()); err != nil {
			return err
		}

		if err := nextFact.PointToRemark(remark.GetFact()); err != nil {
			return err
		}

		return a.factRepository.AppendFact(factIdentifier, nextFact.GetRemark())
	}

	if err := join(); err != nil {
		return nil, err
	}
'''))
seed('s19-read-via-class', fn(W, 'func (s *Storage) ReadEntityByPhrase', '''
func (s *Storage) ReadEntityByPhrase(phrase uint) (abstractWord.Entity, error) {

	word, _, err := s.storage.GetReference(phrase)
	if err != nil {
		return nil, err
	}

	return s.ReadEntityByWord(word)
}
'''), fn(W, 'func (s *Storage) ReadEntityByWord', '''
func (s *Storage) ReadEntityByWord(word uint) (abstractWord.Entity, error) {

	character, _, err := s.storage.GetReference(word)
	if err != nil {
		return nil, err
	}

	return s.ReadEntityByCharacter(character)
}
'''))
RR = C + 'remark/repository.go'
t = body(RR, 'func (r *Repository) CreateFirstUserRemark')
seed('s20-detail-first', (RR, t[t.index('\tclass, err := r.class'):t.index('\terr = detail.PointToRemark')], '''	detail, err := r.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

'''))
seed('s21-collect-range', fn(C + 'word/paths.go', 'func (p *paths) collect', '''
func (p *paths) collect(word string) (path, error) {

	if word == "" {
		return path{}, fmt.Errorf("no character in word cluster: %s", word)
	}

	if !utf8.ValidString(word) {
		return path{}, fmt.Errorf("invalid encoding of word: %q", word)
	}

	return []rune(word), nil
}
'''))
seed('s22-collect-runes', fn(C + 'word/paths.go', 'func (p *paths) collect', '''
func (p *paths) collect(word string) (path, error) {

	if !utf8.ValidString(word) {
		return path{}, fmt.Errorf("invalid encoding of word: %q", word)
	}

	var collected path

	for _, character := range word {
		collected = append(collected, character)
	}

	if len(collected) == 0 {
		return collected, fmt.Errorf("no character in word cluster: %s", word)
	}

	return collected, nil
}
'''))
t = body(C + 'word/aggregate.go', 'func (a Aggregate) Extract')
seed('s23-extract-for', (C + 'word/aggregate.go', t, '''func (a Aggregate) Extract() (string, error) {

	element := a.wordElements.CreateLastElement(a.word)

	var collected path

	for {
		value, err := element.ExtractCharacterValue()
		if err != nil {
			return "", err
		}

		collected = append(collected, value)

		hasPrevious, err := element.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPrevious {
			return collected.reverse().toString(), nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return "", err
		}
	}
}
'''))
seed('s24-get-remark', fn(RR, 'func (r *Repository) GetRemark', '''
func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate, error) {

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	switch isRemark, err := class.IsRemark(remarkIdentifier); {
	case err != nil:
		return nil, err
	case !isRemark:
		return nil, fmt.Errorf("identifier does not belong to a remark: %d", remarkIdentifier)
	}

	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	return r.aggregate(remark), nil
}

func (r *Repository) aggregate(remark abstractRemark.Entity) Aggregate {

	return Aggregate{
		remark:           remark,
		remarkStorage:    r.remarkStorage,
		classRepository:  r.classRepository,
		detailRepository: r.detailRepository,
		factRepository:   r.factRepository,
	}
}
'''))
seed('s25-first-only', fn(C + 'word/factory.go', 'func (f *Factory) ProvideHeadEntity', '''
func (f *Factory) ProvideHeadEntity(
	classEntity abstractClass.Entity,
	characterAggregate abstractCharacter.Aggregate,
) (abstractWord.Entity, error) {

	hasTargetWord, err := characterAggregate.HasTargetWord()
	if err != nil {
		return Entity{}, err
	}

	if hasTargetWord {
		return f.readHead(characterAggregate)
	}

	return f.createHead(classEntity, characterAggregate)
}

func (f *Factory) readHead(characterAggregate abstractCharacter.Aggregate) (abstractWord.Entity, error) {

	character, err := characterAggregate.GetTargetWord()
	if err != nil {
		return nil, err
	}

	return f.wordStorage.ReadEntityByCharacter(character)
}

func (f *Factory) createHead(classEntity abstractClass.Entity, characterAggregate abstractCharacter.Aggregate) (abstractWord.Entity, error) {

	class, err := classEntity.CreateWord()
	if err != nil {
		return nil, err
	}

	wordEntity, err := f.wordStorage.CreateEntity(class)
	if err != nil {
		return nil, err
	}

	if err = wordEntity.PointToCharacter(characterAggregate.GetWord()); err != nil {
		return nil, err
	}

	if err = characterAggregate.PointToWord(wordEntity.GetCharacter()); err != nil {
		return nil, err
	}

	return wordEntity, nil
}
'''))
E_ = C + 'remark/entity.go'
seed('s26-single', fn(E_, 'func (e Entity) GetTargetFact', '''
func (e Entity) GetTargetFact() (uint, error) {

	targetFacts, err := e.storage.ReadTargets(e.fact)

	return single(targetFacts, err, "remark has wrong number of target facts")
}

func single(identifiers []uint, err error, message string) (uint, error) {

	if err != nil {
		return 0, err
	}

	for i, identifier := range identifiers {
		if i == 0 && len(identifiers) == 1 {
			return identifier, nil
		}
	}

	return 0, fmt.Errorf("%s", message)
}
'''))
seed('s27-provide-recursive', fn(C + 'phrase/repository.go', 'func (r *Repository) Provide', '''
func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {

	path, err := r.paths.collect(words)
	if err != nil {
		return nil, err
	}

	var phraseElement abstractPhrase.Element

	for i, wordValue := range path {

		if i == 0 {
			phraseElement, err = r.phraseElements.ProvideFirstElement(wordValue)
		} else {
			phraseElement, err = phraseElement.ProvideNextElement(wordValue)
		}

		if err != nil {
			return nil, err
		}
	}

	return Aggregate{
		phrase:         phraseElement.GetEntity(),
		phraseElements: r.phraseElements,
		paths:          r.paths,
	}, nil
}
'''))
seed('s28-detail-swap', (C + 'detail/repository.go', '''	objectPhrase, err := r.phraseRepository.Provide(object)
	if err != nil {
		return nil, err
	}

	propertyPhrase, err := r.phraseRepository.Provide(property)
	if err != nil {
		return nil, err
	}
''', '''	phrases := [2]abstractPhrase.Aggregate{}

	for i, text := range []string{object, property} {
		phrase, err := r.phraseRepository.Provide(text)
		if err != nil {
			return nil, err
		}

		phrases[i] = phrase
	}

	objectPhrase, propertyPhrase := phrases[0], phrases[1]
'''))
seed('s29-bit-map', fn(C + 'bit/repository.go', 'func (r *Repository) Fetch', '''
func (r *Repository) Fetch(identifier uint) (abstractBit.Entity, error) {

	zeroEntity, oneEntity, err := r.layer.initialize()
	if err != nil {
		return Entity{}, err
	}

	for _, entity := range []Entity{zeroEntity, oneEntity} {
		if entity.GetCharacter() == identifier {
			return entity, nil
		}
	}

	return Entity{}, fmt.Errorf("wrong identifier in bit layer %d", identifier)
}
'''))
