"""A fifth set of edits that keep the behaviour: the same rewritings ported to every package that has the shape."""
from refactors3 import text, body, fn, sub, whole, C
SEEDS = []
def seed(id, *edits):
    SEEDS.append({'id': id, 'edits': list(edits)})

# --- path.reverse in three packages -------------------------------------------------------------------------------
TYPES = {'character': 'bool', 'word': 'rune', 'phrase': 'string'}
for p, t in TYPES.items():
    P = C + p + '/path.go'
    seed('v01-reverse-range-' + p, fn(P, 'func (p path) reverse', '''
func (p path) reverse() path {

	reversed := make(path, len(p))

	for i, item := range p {
		reversed[len(p)-1-i] = item
	}

	return reversed
}
'''))
    seed('v02-reverse-append-' + p, fn(P, 'func (p path) reverse', '''
func (p path) reverse() path {

	var reversed path

	for i := len(p) - 1; i >= 0; i-- {
		reversed = append(reversed, p[i])
	}

	return reversed
}
'''))
    seed('v03-reverse-swap-' + p, fn(P, 'func (p path) reverse', '''
func (p path) reverse() path {

	reversed := append(path{}, p...)

	for left, right := 0, len(reversed)-1; left < right; left, right = left+1, right-1 {
		reversed[left], reversed[right] = reversed[right], reversed[left]
	}

	return reversed
}
'''))
    seed('v04-reverse-half-' + p, fn(P, 'func (p path) reverse', '''
func (p path) reverse() path {

	n := len(p)
	reversed := make([]%s, n)
	copy(reversed, p)

	for i := 0; i < n/2; i++ {
		reversed[i], reversed[n-i-1] = reversed[n-i-1], reversed[i]
	}

	return reversed
}
''' % t))
    seed('v05-create-literal-' + p, fn(C + p + '/paths.go', 'func (p *paths) create', '''
func (p *paths) create(start %s) path {

	return path{start}
}
''' % t))
    seed('v06-create-append-' + p, fn(C + p + '/paths.go', 'func (p *paths) create', '''
func (p *paths) create(start %s) path {

	newPath := make(path, 0, 8)

	return append(newPath, start)
}
''' % t))

# --- Extract ------------------------------------------------------------------------------------------------------
EX = {'character': ('aggragate.go', 'characterElements', 'character', 'Bit', 'rune', '0', 'bitValue'),
      'word': ('aggregate.go', 'wordElements', 'word', 'Character', 'string', '""', 'characterValue'),
      'phrase': ('aggregate.go', 'phraseElements', 'phrase', 'Word', 'string', '""', 'wordValue')}
TAIL = {'character': '''
	var integer int32

	for _, bitValue := range path.reverse() {
		integer <<= 1
		if bitValue {
			integer += 1
		}
	}

	return integer, nil
''', 'word': '\n\treturn path.reverse().toString(), nil\n', 'phrase': '\n\treturn path.reverse().toString(), nil\n'}
for p, (f, elems, ent, low, rt, zero, val) in EX.items():
    F = C + p + '/' + f
    d = dict(elems=elems, ent=ent, low=low, rt=rt, z=zero, v=val, tail=TAIL[p], p=p, t=TYPES[p], P=p[0].upper() + p[1:])
    seed('v10-extract-while-' + p, fn(F, 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (%(rt)s, error) {

	element := a.%(elems)s.CreateLastElement(a.%(ent)s)

	value, err := element.Extract%(low)sValue()
	if err != nil {
		return %(z)s, err
	}

	path := a.paths.create(value)

	more, err := element.HasPreviousElement()
	for more && err == nil {
		element, err = element.GetPreviousElement()
		if err != nil {
			return %(z)s, err
		}

		value, err = element.Extract%(low)sValue()
		if err != nil {
			return %(z)s, err
		}

		path = append(path, value)

		more, err = element.HasPreviousElement()
	}
	if err != nil {
		return %(z)s, err
	}
%(tail)s}
''' % d))
    seed('v11-extract-first-inside-' + p, fn(F, 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (%(rt)s, error) {

	element := a.%(elems)s.CreateLastElement(a.%(ent)s)

	var path path

	for {
		value, err := element.Extract%(low)sValue()
		if err != nil {
			return %(z)s, err
		}

		path = append(path, value)

		hasPreviousElement, err := element.HasPreviousElement()
		if err != nil {
			return %(z)s, err
		}

		if !hasPreviousElement {
			break
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return %(z)s, err
		}
	}
%(tail)s}
''' % d))
    seed('v12-extract-helper-' + p, fn(F, 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (%(rt)s, error) {

	path, err := a.climb(a.%(elems)s.CreateLastElement(a.%(ent)s))
	if err != nil {
		return %(z)s, err
	}
%(tail)s}

func (a Aggregate) climb(element abstract%(P)s.Element) (path, error) {

	value, err := element.Extract%(low)sValue()
	if err != nil {
		return nil, err
	}

	path := a.paths.create(value)

	for {
		hasPreviousElement, err := element.HasPreviousElement()
		if err != nil {
			return nil, err
		}

		if !hasPreviousElement {
			return path, nil
		}

		element, err = element.GetPreviousElement()
		if err != nil {
			return nil, err
		}

		value, err := element.Extract%(low)sValue()
		if err != nil {
			return nil, err
		}

		path = append(path, value)
	}
}
''' % d))
    seed('v13-extract-elements-' + p, fn(F, 'func (a Aggregate) Extract', '''
func (a Aggregate) Extract() (%(rt)s, error) {

	elements := []abstract%(P)s.Element{a.%(elems)s.CreateLastElement(a.%(ent)s)}

	for {
		last := elements[len(elements)-1]

		hasPreviousElement, err := last.HasPreviousElement()
		if err != nil {
			return %(z)s, err
		}

		if !hasPreviousElement {
			break
		}

		previous, err := last.GetPreviousElement()
		if err != nil {
			return %(z)s, err
		}

		elements = append(elements, previous)
	}

	path := make(path, 0, len(elements))

	for _, element := range elements {
		value, err := element.Extract%(low)sValue()
		if err != nil {
			return %(z)s, err
		}

		path = append(path, value)
	}
%(tail)s}
''' % d))

F = C + 'character/aggragate.go'
seed('v14-bits-or', sub(F, 'func (a Aggregate) Extract', ('''		integer <<= 1
		if bitValue {
			integer += 1
		}
''', '''		integer = integer << 1
		if bitValue {
			integer = integer | 1
		}
''')))
seed('v15-bits-double', sub(F, 'func (a Aggregate) Extract', ('''		integer <<= 1
		if bitValue {
			integer += 1
		}
''', '''		integer *= 2
		if bitValue {
			integer++
		}
''')))
seed('v16-bits-else', sub(F, 'func (a Aggregate) Extract', ('''		integer <<= 1
		if bitValue {
			integer += 1
		}
''', '''		if bitValue {
			integer = integer*2 + 1
		} else {
			integer = integer + integer
		}
''')))
seed('v17-bits-backwards', sub(F, 'func (a Aggregate) Extract', ('''	for _, bitValue := range path.reverse() {
		integer <<= 1
		if bitValue {
''', '''	for i := len(path) - 1; i >= 0; i-- {
		integer <<= 1
		if path[i] {
''')))
seed('v18-bits-method', sub(F, 'func (a Aggregate) Extract', ('''	var integer int32

	for _, bitValue := range path.reverse() {
		integer <<= 1
		if bitValue {
			integer += 1
		}
	}

	return integer, nil
''', '''	return path.reverse().toInteger(), nil
''')), whole(C + 'character/path.go', lambda s: s + '''
func (p path) toInteger() rune {

	var integer rune

	for _, bitValue := range p {
		integer <<= 1
		if bitValue {
			integer++
		}
	}

	return integer
}
'''))

# --- ProvideNextElement ---------------------------------------------------------------------------------------------
NX = {'character': ('Character', 'Bit', 'bool', 'bitRepository'),
      'word': ('Word', 'Character', 'rune', 'characterRepository'),
      'phrase': ('Phrase', 'Word', 'string', 'wordRepository')}
for p, (P, low, t, repo) in NX.items():
    F = C + p + '/element.go'
    ext = ('value := target%s.Bit()' % low) if p == 'character' else ('value, err := target%s.Extract()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}' % low)
    point = '' if p == 'character' else None
    d = dict(p=p, P=P, low=low, l=low.lower(), t=t, repo=repo, ext=ext)
    src = body(F, 'func (e Element) ProvideNextElement') if False else None
    create = '''
	class, err := e.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	%(l)s, err := e.%(repo)s.Provide(value)
	if err != nil {
		return nil, err
	}

	new%(P)s, err := e.%(p)sFactory.CreateTailEntity(class, %(l)s, e.%(p)s)
	if err != nil {
		return nil, err
	}
''' % d
    if p != 'character':
        import re
        if 'PointTo%s(new%s' % (P, P) in open('/repo/' + F if not F.startswith('/') else F).read():
            create += '''
	if err = e.%(p)s.PointTo%(P)s(new%(P)s.Get%(P)s()); err != nil {
		return nil, err
	}
''' % d
    d['create'] = create
    el = '''Element{
		%(p)s: %%s,
		%(p)sStorage: e.%(p)sStorage,
		%(p)sFactory: e.%(p)sFactory,
		classRepository: e.classRepository,
		%(repo)s: e.%(repo)s,
	}''' % d
    d['el_target'] = el % 'target'
    d['el_new'] = el % ('new' + P)
    d['el_x'] = el % p
    seed('v20-next-merged-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	identifiers, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, err
	}

	for _, identifier := range identifiers {
		target, err := e.%(p)sStorage.ReadEntityBy%(P)s(identifier)
		if err != nil {
			return nil, err
		}

		same, err := e.leadsTo(target, value)
		if err != nil {
			return nil, err
		}

		if same {
			return e.with(target), nil
		}
	}
%(create)s
	return e.with(new%(P)s), nil
}

func (e Element) with(%(p)s abstract%(P)s.Entity) abstract%(P)s.Element {

	e.%(p)s = %(p)s

	return e
}

func (e Element) leadsTo(%(p)s abstract%(P)s.Entity, value %(t)s) (bool, error) {

	found, err := Element{%(p)s: %(p)s, %(repo)s: e.%(repo)s}.Extract%(low)sValue()
	if err != nil {
		return false, err
	}

	return found == value, nil
}
''' % d))
    seed('v21-next-find-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	%(p)s, found, err := e.find(value)
	if err != nil {
		return nil, err
	}

	if !found {
		%(p)s, err = e.make(value)
		if err != nil {
			return nil, err
		}
	}

	return %(el_x)s, nil
}

func (e Element) find(wanted %(t)s) (abstract%(P)s.Entity, bool, error) {

	identifiers, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, false, err
	}

	for i := 0; i < len(identifiers); i++ {
		target, err := e.%(p)sStorage.ReadEntityBy%(P)s(identifiers[i])
		if err != nil {
			return nil, false, err
		}

		below, err := target.GetTarget%(low)s()
		if err != nil {
			return nil, false, err
		}

		target%(low)s, err := e.%(repo)s.Fetch(below)
		if err != nil {
			return nil, false, err
		}

		%(ext3)s

		if value == wanted {
			return target, true, nil
		}
	}

	return nil, false, nil
}

func (e Element) make(value %(t)s) (abstract%(P)s.Entity, error) {
%(create)s
	return new%(P)s, nil
}
''' % dict(d, ext3=ext.replace('return nil, err', 'return nil, false, err'))))
    seed('v22-next-flag-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	identifiers, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, err
	}

	next := e
	found := false

	for _, identifier := range identifiers {
		next.%(p)s, err = e.%(p)sStorage.ReadEntityBy%(P)s(identifier)
		if err != nil {
			return nil, err
		}

		present, err := next.Extract%(low)sValue()
		if err != nil {
			return nil, err
		}

		if present == value {
			found = true
			break
		}
	}

	if found {
		return next, nil
	}
%(create)s
	next.%(p)s = new%(P)s

	return next, nil
}
''' % d))
    seed('v23-next-index-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	identifiers, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, err
	}

	targets := make([]abstract%(P)s.Entity, len(identifiers))
	for i := range identifiers {
		targets[i], err = e.%(p)sStorage.ReadEntityBy%(P)s(identifiers[i])
		if err != nil {
			return nil, err
		}
	}

	position := -1
	for i, target := range targets {
		candidate := e
		candidate.%(p)s = target

		present, err := candidate.Extract%(low)sValue()
		if err != nil {
			return nil, err
		}

		if present == value {
			position = i
			break
		}
	}

	if position >= 0 {
		target := targets[position]

		return %(el_target)s, nil
	}
%(create)s
	return %(el_new)s, nil
}
''' % d))
    seed('v24-next-elements-' + p, fn(F, 'func (e Element) ProvideNextElement', '''
func (e Element) ProvideNextElement(value %(t)s) (abstract%(P)s.Element, error) {

	nextElements, err := e.listNextElements()
	if err != nil {
		return nil, err
	}

	for _, nextElement := range nextElements {
		present, err := nextElement.Extract%(low)sValue()
		if err != nil {
			return nil, err
		}

		if present == value {
			return nextElement, nil
		}
	}
%(create)s
	return %(el_new)s, nil
}

func (e Element) listNextElements() ([]abstract%(P)s.Element, error) {

	identifiers, err := e.%(p)s.GetTarget%(P)ss()
	if err != nil {
		return nil, err
	}

	elements := make([]abstract%(P)s.Element, 0, len(identifiers))

	for _, identifier := range identifiers {
		target, err := e.%(p)sStorage.ReadEntityBy%(P)s(identifier)
		if err != nil {
			return nil, err
		}

		elements = append(elements, %(el_target)s)
	}

	return elements, nil
}
''' % d))

# --- Repository.Provide ------------------------------------------------------------------------------------------
PR = {'character': ('integer rune', 'integer', 'bool'), 'word': ('characters string', 'characters', 'rune'), 'phrase': ('words string', 'words', 'string')}
for p, (par, arg, t) in PR.items():
    F = C + p + '/repository.go'
    P = p[0].upper() + p[1:]
    d = dict(p=p, P=P, par=par, arg=arg, t=t)
    ret = '''	return Aggregate{
		%(p)s:         element.GetEntity(),
		%(p)sElements: r.%(p)sElements,
		paths:        r.paths,
	}, nil
''' % d
    d['ret'] = ret
    seed('v30-provide-switch-' + p, fn(F, 'func (r *Repository) Provide', '''
func (r *Repository) Provide(%(par)s) (abstract%(P)s.Aggregate, error) {

	path, err := r.paths.collect(%(arg)s)
	if err != nil {
		return nil, err
	}

	var element abstract%(P)s.Element

	for i, value := range path {
		if i == 0 {
			element, err = r.%(p)sElements.ProvideFirstElement(value)
		} else {
			element, err = element.ProvideNextElement(value)
		}

		if err != nil {
			return nil, err
		}
	}

%(ret)s}
''' % d))
    seed('v31-provide-index-' + p, fn(F, 'func (r *Repository) Provide', '''
func (r *Repository) Provide(%(par)s) (abstract%(P)s.Aggregate, error) {

	path, err := r.paths.collect(%(arg)s)
	if err != nil {
		return nil, err
	}

	element, err := r.%(p)sElements.ProvideFirstElement(path[0])
	for i := 1; i < len(path) && err == nil; i++ {
		element, err = element.ProvideNextElement(path[i])
	}
	if err != nil {
		return nil, err
	}

%(ret)s}
''' % d))
    seed('v32-provide-descend-' + p, fn(F, 'func (r *Repository) Provide', '''
func (r *Repository) Provide(%(par)s) (abstract%(P)s.Aggregate, error) {

	path, err := r.paths.collect(%(arg)s)
	if err != nil {
		return nil, err
	}

	first, rest := path[0], path[1:]

	element, err := r.%(p)sElements.ProvideFirstElement(first)
	if err != nil {
		return nil, err
	}

	element, err = descend(element, rest)
	if err != nil {
		return nil, err
	}

%(ret)s}

func descend(element abstract%(P)s.Element, path path) (abstract%(P)s.Element, error) {

	for len(path) > 0 {
		next, err := element.ProvideNextElement(path[0])
		if err != nil {
			return nil, err
		}

		element = next
		path = path[1:]
	}

	return element, nil
}
''' % d))
