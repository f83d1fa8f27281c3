"""edits that keep the behaviour: every proof has to stay quiet"""
SEEDS = []
def seed(id, *edits): SEEDS.append(dict(id=id, edits=list(edits)))
C = 'internal/concrete/'
seed('r01-merge-loops', (C + 'word/element.go', '''		targetWords = append(targetWords, targetWord)
	}

	// use existing
	for _, targetWord := range targetWords {
		targetCharacterIdentifier''', '''		targetCharacterIdentifier'''), (C + 'word/element.go', '''	targetWords := make([]abstractWord.Entity, 0, len(targetWordIdentifiers))
''', ''))
seed('r02-index-loop', (C + 'phrase/repository.go', '''	for _, wordValue := range path[1:] {

		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
''', '''	for i := 1; i < len(path); i++ {
		phraseElement, err = phraseElement.ProvideNextElement(path[i])
'''))
seed('r03-string-concat', ('output.go', '''	var buffer bytes.Buffer
''', '''	text := ""
'''), ('output.go', '''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''', '''		text += object + " " + property + " "
'''), ('output.go', 'return buffer.String(), nil', 'return text, nil'), ('output.go', 'import "bytes"\n', ''))
seed('r04-shift-or', (C + 'character/aggragate.go', '''		integer <<= 1
		if bitValue {
			integer += 1
		}
''', '''		if bitValue {
			integer = integer*2 + 1
		} else {
			integer = integer * 2
		}
'''))
seed('r05-last-fact-helper', (C + 'fact/repository.go', '''	for {
		hasTargetFact, err := fact.HasTargetFact()
		if err != nil {
			return err
		}

		if !hasTargetFact {
			break
		}

		targetFact, err := fact.GetTargetFact()
		if err != nil {
			return err
		}

		fact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return err
		}
	}

	return fact.PointToPosition(nextFact.GetPosition())
''', '''	lastFact, err := r.findLast(fact)
	if err != nil {
		return err
	}

	return lastFact.PointToPosition(nextFact.GetPosition())
'''), (C + 'fact/repository.go', '', '''
func (r *Repository) findLast(fact abstractFact.Entity) (abstractFact.Entity, error) {

	hasTargetFact, err := fact.HasTargetFact()
	for err == nil && hasTargetFact {
		targetFact, err := fact.GetTargetFact()
		if err != nil {
			return nil, err
		}

		fact, err = r.factStorage.ReadEntityByPosition(targetFact)
		if err != nil {
			return nil, err
		}

		hasTargetFact, err = fact.HasTargetFact()
		if err != nil {
			return nil, err
		}
	}

	return fact, err
}
'''))
seed('r06-get-remark-order', (C + 'remark/repository.go', '''	isRemark, err := class.IsRemark(remark.GetClass())
''', '''	isRemark, err := class.IsRemark(remarkIdentifier)
'''))
seed('r07-create-order', (C + 'word/storage.go', '''	word, err := s.storage.Create()
	if err != nil {
		return nil, err
	}

	phrase, err := s.storage.Create()
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(class, character)
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(character, word)
''', '''	err = s.storage.SetReference(class, character)
	if err != nil {
		return nil, err
	}

	word, err := s.storage.Create()
	if err != nil {
		return nil, err
	}

	phrase, err := s.storage.Create()
	if err != nil {
		return nil, err
	}

	err = s.storage.SetReference(character, word)
'''))
seed('r09-bit-order', (C + 'bit/layer.go', '''			if classIdentifiers[0] < classIdentifiers[1] {
				zeroClassIdentifier = classIdentifiers[0]
				oneClassIdentifier = classIdentifiers[1]
			} else {
				zeroClassIdentifier = classIdentifiers[1]
				oneClassIdentifier = classIdentifiers[0]
			}

			// zero

			_, zero''', '''			zeroClassIdentifier, oneClassIdentifier = classIdentifiers[0], classIdentifiers[1]
			if oneClassIdentifier < zeroClassIdentifier {
				zeroClassIdentifier, oneClassIdentifier = oneClassIdentifier, zeroClassIdentifier
			}

			// zero

			_, zero'''))
seed('r10-link-helper', (C + 'remark/aggregate.go', '''	err = remark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}
''', '''	err = link(remark, nextFact)
	if err != nil {
		return nil, err
	}
'''), (C + 'remark/aggregate.go', '', '''
func link(remark abstractRemark.Entity, fact interface {
	GetRemark() uint
	PointToRemark(remark uint) error
}) error {

	if err := remark.PointToFact(fact.GetRemark()); err != nil {
		return err
	}

	return fact.PointToRemark(remark.GetFact())
}
'''))
seed('r11-detail-search', (C + 'detail/factory.go', '''			if propertySourceDetail == objectTargetDetail {
				commonDetailIdentifiers = append(commonDetailIdentifiers, propertySourceDetail)
			}
''', '''			if propertySourceDetail != objectTargetDetail {
				continue
			}
			commonDetailIdentifiers = append(commonDetailIdentifiers, objectTargetDetail)
'''))
seed('r12-reverse', (C + 'word/path.go', '''	for total, i, j := len(p), 0, len(p)-1; i < total; i, j = i+1, j-1 {
		reversed[j] = p[i]
	}
''', '''	for i := range p {
		reversed[len(p)-1-i] = p[i]
	}
'''))
seed('r13-wrap-errors', (C + 'phrase/repository.go', '''		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
		if err != nil {
			return nil, err
		}
''', '''		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
		if err != nil {
			return nil, fmt.Errorf("phrase %q: %w", words, err)
		}
'''), (C + 'phrase/repository.go', '''import (
''', '''import (
	"fmt"

'''))
seed('r14-factory-early', (C + 'word/factory.go', '''	if !hasTargetWord {

		class, err := classEntity.CreateWord()
		if err != nil {
			return nil, err
		}

		wordEntity, err := f.wordStorage.CreateEntity(class)
		if err != nil {
			return nil, err
		}

		err = wordEntity.PointToCharacter(characterAggregate.GetWord())
		if err != nil {
			return nil, err
		}

		err = characterAggregate.PointToWord(wordEntity.GetCharacter())
		if err != nil {
			return nil, err
		}

		return wordEntity, nil
	}

	character, err := characterAggregate.GetTargetWord()
	if err != nil {
		return nil, err
	}

	return f.wordStorage.ReadEntityByCharacter(character)
''', '''	if hasTargetWord {
		character, err := characterAggregate.GetTargetWord()
		if err != nil {
			return nil, err
		}

		return f.wordStorage.ReadEntityByCharacter(character)
	}

	class, err := classEntity.CreateWord()
	if err != nil {
		return nil, err
	}

	wordEntity, err := f.wordStorage.CreateEntity(class)
	if err != nil {
		return nil, err
	}

	err = wordEntity.PointToCharacter(characterAggregate.GetWord())
	if err != nil {
		return nil, err
	}

	err = characterAggregate.PointToWord(wordEntity.GetCharacter())
	if err != nil {
		return nil, err
	}

	return wordEntity, nil
'''))
seed('r15-collect-loop', (C + 'character/paths.go', '''	for i, bitName := range bitNames {
		if bitName != '0' && bitName != '1' {
			return path{}, fmt.Errorf("invalid bit name: %c", bitName)
		}
		bitValues[i] = bitName == '1'
	}
''', '''	for i, bitName := range bitNames {
		switch bitName {
		case '0':
			bitValues[i] = false
		case '1':
			bitValues[i] = true
		default:
			return path{}, fmt.Errorf("invalid bit name: %c", bitName)
		}
	}
'''))
seed('r16-extract-loop', (C + 'word/aggregate.go', '''	path := a.paths.create(characterValue)

	for {
		hasPreviousElement, err := wordElement.HasPreviousElement()
		if err != nil {
			return "", err
		}

		if !hasPreviousElement {
			break
		}

		wordElement''', '''	path := a.paths.create(characterValue)

	hasPreviousElement, err := wordElement.HasPreviousElement()
	if err != nil {
		return "", err
	}

	for hasPreviousElement {
		wordElement'''), (C + 'word/aggregate.go', '''		path = append(path, characterValue)
''', '''		path = append(path, characterValue)

		hasPreviousElement, err = wordElement.HasPreviousElement()
		if err != nil {
			return "", err
		}
'''))
seed('r17-switch-to-if', (C + 'story/entity.go', '''	if len(targets) != 1 {
		return 0, fmt.Errorf("story has wrong number of next stories")
	}

	return targets[0], nil
''', '''	switch len(targets) {
	case 1:
		return targets[0], nil
	default:
		return 0, fmt.Errorf("story has wrong number of next stories")
	}
'''))
seed('r18-is-remark', (C + 'class/node/remark.go', '''	if len(targets) != 1 {
		return false, fmt.Errorf("wrong number of targets at position class node %d", identifier)
	}

	return targets[0] == r.identifier, nil
''', '''	if len(targets) == 1 {
		return r.identifier == targets[0], nil
	}

	return false, fmt.Errorf("wrong number of targets at position class node %d", identifier)
'''))
seed('r19-child-order', (C + 'remark/aggregate.go', '''	err = remark.PointToFact(firstFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = firstFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}
''', '''	err = firstFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	err = remark.PointToFact(firstFact.GetRemark())
	if err != nil {
		return nil, err
	}
'''))
seed('r20-new-aggregate', (C + 'fact/aggregate.go', '''	nextFact, err := a.factStorage.ReadEntityByPosition(nextFactIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     a.factStorage,
		storyRepository: a.storyRepository,
	}, nil
''', '''	nextFact, err := a.factStorage.ReadEntityByPosition(nextFactIdentifier)
	if err != nil {
		return nil, err
	}

	a.fact = nextFact

	return a, nil
'''))
seed('r21-bit-provide', (C + 'bit/repository.go', '''	if value {
		return oneEntity, nil
	} else {
		return zeroEntity, nil
	}
''', '''	provided := zeroEntity
	if value {
		provided = oneEntity
	}

	return provided, nil
'''))
seed('r22-reverse-swap', (C + 'phrase/path.go', '''	reversed := make([]string, len(p))

	for total, i, j := len(p), 0, len(p)-1; i < total; i, j = i+1, j-1 {
		reversed[j] = p[i]
	}

	return reversed
''', '''	reversed := make([]string, 0, len(p))

	for i := len(p) - 1; i >= 0; i-- {
		reversed = append(reversed, p[i])
	}

	return reversed
'''))
seed('r23-append-order', (C + 'fact/repository.go', '''	hasSourceTree, err := story.HasSourceTree()
	if err != nil {
		return err
	}

	childFact, err := r.factStorage.ReadEntityByRemark(childRemarkIdentifier)
	if err != nil {
		return err
	}
''', '''	childFact, err := r.factStorage.ReadEntityByRemark(childRemarkIdentifier)
	if err != nil {
		return err
	}

	hasSourceTree, err := story.HasSourceTree()
	if err != nil {
		return err
	}
'''))
seed('r24-detail-early-return', (C + 'detail/factory.go', '''	switch len(commonDetailIdentifiers) {
	case 0:
		return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
	case 1:
		return f.storage.ReadEntityByPhrase(commonDetailIdentifiers[0])
	default:
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}
''', '''	if len(commonDetailIdentifiers) > 1 {
		return Entity{}, fmt.Errorf("phrases have too many common details")
	}

	if len(commonDetailIdentifiers) == 1 {
		return f.storage.ReadEntityByPhrase(commonDetailIdentifiers[0])
	}

	return f.storage.CreateEntity(classEntity, objectPhrase, propertyPhrase)
'''))
