"""A seventh set: other names and other states kept in memory."""
from refactors3 import text, body, fn, sub, whole, C
SEEDS = []
def seed(id, *edits):
    SEEDS.append({'id': id, 'edits': list(edits)})

L = C + 'bit/layer.go'
def ren(*pairs):
    import re
    def f(t):
        for a, b in pairs:
            t = re.sub(r'\b%s\b' % a, b, t)
        return t
    return f
seed('x01-flag-renamed', whole(L, ren(('isInitialized', 'ready'))))
seed('x02-flag-inverted', whole(L, lambda t: t.replace('!l.isInitialized', 'l.pending').replace('l.isInitialized = true', 'l.pending = false').replace('isInitialized:   false', 'pending:         true').replace('isInitialized ', 'pending ')))
seed('x03-entities-renamed', whole(L, ren(('zeroEntity', 'zero'), ('oneEntity', 'one'))))
seed('x04-no-flag', whole(L, lambda t: t.replace('!l.isInitialized', 'l.oneEntity.class == 0').replace('	l.isInitialized = true\n', '').replace('		isInitialized:   false,\n', '').replace('	isInitialized   bool\n', '')))
seed('x05-two-flags', whole(L, lambda t: t.replace('!l.isInitialized', '!l.hasZero || !l.hasOne').replace('l.isInitialized = true', 'l.hasZero, l.hasOne = true, true').replace('		isInitialized:   false,\n', '').replace('	isInitialized   bool\n', '	hasZero         bool\n	hasOne          bool\n')))
R = C + 'class/repository.go'
seed('x06-class-cached', whole(R, lambda t: t.replace('			node.NewStory(storyIdentifier, r.storage),\n		)\n', '			node.NewStory(storyIdentifier, r.storage),\n		)\n\n		r.isInitialized = true\n')))
for p in ('character', 'word', 'phrase', 'fact', 'story', 'remark', 'detail'):
    import os
    e = C + p + '/entity.go'
    fs = {'character': 'bit', 'word': 'character', 'phrase': 'word', 'fact': 'remark', 'story': 'fact', 'remark': 'detail', 'detail': 'phrase'}[p]
    old = fs
    def both(t, old=old):
        import re
        t = re.sub(r'(\be|entity|Entity)\.%s\b' % old, r'\1.%sNode' % old, t)
        t = re.sub(r'(?m)^(\t)%s( +)uint$' % old, r'\1%sNode\2uint' % old, t)
        t = re.sub(r'(?m)^(\t+)%s:( +)%s,$' % (old, old), r'\1%sNode:\2%s,' % (old, old), t)
        return t
    seed('x07-field-renamed-' + p, whole(e, both), whole(C + p + '/storage.go', both))
G = 'graph.go'
seed('x08-last-looked-up', sub(G, 'func (g *Graph) GetRemark', ('''
	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
''', '''
	if g.last.Aggregate != nil && g.last.GetIdentifier() == remarkIdentifier {
		return g.last, nil
	}

	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err != nil {
		return Remark{}, err
	}

	g.last = Remark{Aggregate: aggregate}

	return g.last, nil
''')), sub(G, 'type Graph struct', ('	phraseRepository *phrase.Repository\n', '	phraseRepository *phrase.Repository\n	last             Remark\n')))
