"""A sixth set: searches that remember what they found, failures that are looked at later, other shapes of small functions."""
from refactors3 import text, body, fn, sub, whole, C
import refactors5
SEEDS = []
def seed(id, *edits):
    SEEDS.append({'id': id, 'edits': list(edits)})

for p, (P, low, t, repo) in refactors5.NX.items():
    F = C + p + '/element.go'
    create = '''
	class, err := e.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	%(l)s, err := e.%(repo)s.Provide(value)
	if err != nil {
		return nil, err
	}

	new%(P)s, err := e.%(p)sFactory.CreateTailEntity(class, %(l)s, e.%(p)s)
	if err != nil {
		return nil, err
	}
''' % dict(l=low.lower(), repo=repo, P=P, p=p)
    if 'PointTo%s(new%s' % (P, P) in text(F):
        create += '''
	if err = e.%(p)s.PointTo%(P)s(new%(P)s.Get%(P)s()); err != nil {
		return nil, err
	}
''' % dict(P=P, p=p)
    d = dict(p=p, P=P, low=low, t=t, repo=repo, create=create)
    seed('w01-found-flag-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	identifiers, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, err
	}

	found := false
	next := e

	for i := 0; i < len(identifiers) && !found; i++ {
		target, err := e.%(p)sStorage.ReadEntityBy%(P)s(identifiers[i])
		if err != nil {
			return nil, err
		}

		next.%(p)s = target

		present, err := next.Extract%(low)sValue()
		if err != nil {
			return nil, err
		}

		found = present == value
	}

	if found {
		return next, nil
	}
%(create)s
	next.%(p)s = new%(P)s

	return next, nil
}
''' % d))
    seed('w02-found-nil-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	identifiers, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, err
	}

	var next abstract%(P)s.Entity

	for _, identifier := range identifiers {
		target, err := e.%(p)sStorage.ReadEntityBy%(P)s(identifier)
		if err != nil {
			return nil, err
		}

		present, err := Element{%(p)s: target, %(repo)s: e.%(repo)s}.Extract%(low)sValue()
		if err != nil {
			return nil, err
		}

		if present == value {
			next = target
			break
		}
	}

	if next == nil {
%(create2)s
		next = new%(P)s
	}

	return Element{next, e.%(p)sStorage, e.%(p)sFactory, e.classRepository, e.%(repo)s}, nil
}
''' % dict(d, create2=create)))
    seed('w03-search-from-the-end-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	identifiers, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, err
	}

	next := e

	for i := len(identifiers) - 1; i >= 0; i-- {
		next.%(p)s, err = e.%(p)sStorage.ReadEntityBy%(P)s(identifiers[i])
		if err != nil {
			return nil, err
		}

		present, err := next.Extract%(low)sValue()
		if err != nil {
			return nil, err
		}

		if present == value {
			return next, nil
		}
	}
%(create)s
	next.%(p)s = new%(P)s

	return next, nil
}
''' % d))
    seed('w04-shrinking-list-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	remaining, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, err
	}

	for len(remaining) > 0 {
		target, err := e.%(p)sStorage.ReadEntityBy%(P)s(remaining[0])
		if err != nil {
			return nil, err
		}

		next := e
		next.%(p)s = target

		present, err := next.Extract%(low)sValue()
		if err != nil {
			return nil, err
		}

		if present == value {
			return next, nil
		}

		remaining = remaining[1:]
	}
%(create)s
	return Element{new%(P)s, e.%(p)sStorage, e.%(p)sFactory, e.classRepository, e.%(repo)s}, nil
}
''' % d))

# ---------------------------------------------------------------- Output.GetStory
O = 'output.go'
seed('w10-output-slice', whole(O, lambda s: s.replace('import "bytes"', 'import "strings"').replace('var buffer bytes.Buffer', 'var parts []string').replace('''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''', '''		parts = append(parts, object+" "+property+" ")
''').replace('buffer.String()', 'strings.Join(parts, "")')))
seed('w11-output-more', fn(O, 'func (o *Output) GetStory', '''
func (o *Output) GetStory(remark Remark) (string, error) {

	var buffer bytes.Buffer

	current, err := remark.GetFirstFact()
	more := true

	for more && err == nil {
		var object, property string

		object, property, err = current.GetObjectAndProperty()
		if err != nil {
			break
		}

		buffer.WriteString(object + " " + property + " ")

		more, err = current.HasNextRemark()
		if err != nil {
			break
		}

		if more {
			current, err = current.GetNextRemark()
		}
	}

	if err != nil {
		return "", err
	}

	return buffer.String(), nil
}
'''))
seed('w12-output-helper', whole(O, lambda s: s.replace('''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''', '''		write(&buffer, object)
		write(&buffer, property)
''') + '''
func write(buffer *bytes.Buffer, word string) {

	buffer.WriteString(word)
	buffer.WriteByte(' ')
}
'''))
seed('w13-output-string', whole(O, lambda s: s.replace('import "bytes"\n\n', '').replace('var buffer bytes.Buffer', 'story := ""').replace('''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''', '''		story += object + " " + property + " "
''').replace('buffer.String()', 'story')))
seed('w14-output-builder', whole(O, lambda s: s.replace('import "bytes"', 'import (\n\t"fmt"\n\t"strings"\n)').replace('bytes.Buffer', 'strings.Builder').replace('''		buffer.WriteString(object)
		buffer.WriteString(" ")
		buffer.WriteString(property)
		buffer.WriteString(" ")
''', '''		fmt.Fprintf(&buffer, "%s %s ", object, property)
''')))
# ---------------------------------------------------------------- small functions of entities
import re
for p in ('character', 'word', 'phrase'):
    F = C + p + '/entity.go'
    P = p[0].upper() + p[1:]
    seed('w20-has-source-' + p, fn(F, 'func (e Entity) HasSource' + P, '''
func (e Entity) HasSource%s() (bool, error) {

	sources, err := e.storage.ReadSources(e.%s)

	return err == nil && len(sources) > 0, err
}
''' % (P, p)))
    m = re.search(r'func \(e Entity\) GetSource%s\(\).*?\n}\n' % P, text(F), re.S).group(0)
    seed('w21-get-source-' + p, fn(F, 'func (e Entity) GetSource' + P, m.replace(') != 1 {', ') < 1 || len(source%ss) > 1 {' % P)))
    seed('w22-one-' + p, whole(F, lambda s, m=m, P=P, p=p: s.replace(m, '''func (e Entity) GetSource%s() (uint, error) {

	return one(e.storage.ReadSources(e.%s))
}

func one(identifiers []uint, err error) (uint, error) {

	if err != nil {
		return 0, err
	}

	if len(identifiers) == 1 {
		return identifiers[0], nil
	}

	return 0, fmt.Errorf("wrong number of identifiers: %%d", len(identifiers))
}
''' % (P, p))))
for p in ('word', 'phrase', 'character', 'detail', 'remark', 'fact', 'story'):
    F = C + p + '/storage.go'
    seed('w23-storage-value-' + p, whole(F, lambda s: s.replace('func (s *Storage)', 'func (s Storage)')))
