"""writes MANIFEST.json"""
import json
SAFE = {
    'C04': 'SAFE contracts: ghost flag set by every failing storage operation; every function under contract ensures failed => err != nil',
    'C05': 'SAFE obligations: nil, bounds, type assertion, explicit panic, conversion of every reachable function',
    'C14': 'SAFE contracts: every modifying storage operation reachable from a looking call is an obligation to be refuted',
}
FULL = {
    'C01': 'text posts of the creating calls, of Provide/Extract of characters, words, phrases, details and of GetObjectAndProperty over the storage invariant',
    'C02': 'posts of GetRemark and ReadEntityBy..., remark invariants R1-R3, no contract mentions memory beyond the cached-class invariant',
    'C03': 'frame obligations X1-X9 of every function: stored values, details, remarks, facts and stories stay; posts on what is appended',
    'C06': 'refusal conditions as postconditions: error if and only if a text has an empty or invalid word; stored phrases have good words only (K2)',
    'C07': 'K2 (equal values are one entity) as data structure invariant plus nothing-is-created posts of Provide and ProvideFirst/NextElement',
    'C08': 'D1-D5: details keyed by their pair of phrases, posts of detail Provide and GetObjectAndProperty',
    'C09': 'posts of bit and character Provide/Fetch/Extract over the ghost bit list, with num(bits(r)) = r',
    'C10': 'post of AddRemarkToFact (object kept, fact kept) over the remark, fact and story invariants',
    'C11': 'F1-F3, S1-S2 (facts of a story as a ghost sequence) as invariants, posts of AddFactToStory/AppendFact and of the fact navigation',
    'C12': 'S3-S6 (children as a ghost sequence) as invariants, posts of CreateChildStory/AppendChildStory and of the story navigation',
    'C13': 'loop invariant of GetStory against the recursive definition of the text of a remark chain; R3',
    'C15': 'invariant and frame obligations at every storage operation at which a call can be interrupted, and on every error return; refusal only for bad texts',
    'C16': 'start states with an empty storage, with classes only, with classes and bits: posts and invariants CL and B of class and bit provision',
    'C17': 'TE/CL/R0-R2 (roles, membership) as invariants, posts of Create.../Is... of the class entity',
    'C18': 'CH (chains of references) as invariants, posts of CreateEntity and ReadEntityBy... of every kind of entity',
    'C19': 'post of GetRemark: success only for members of the remark class; TE membership invariants',
    'C20': 'freshness posts of the four creating calls; frames for other stories',
}
TITLE = 'contract-based deductive verification of the Go source (VCs from go/ssa, z3): '
NOTE = {
    'SAFE': 'Every obligation generated from the current source of /repo is discharged for all inputs and storage faults; the storage behind abstract.Storage, go/ssa, the VC generator and z3 are trusted; termination is not proved.',
    'FULL': 'Every obligation generated from the current source of /repo is discharged, for every state satisfying the data structure invariant (established from the empty storage and preserved by every operation), all inputs and all iterations. '
            'Trusted: the storage behind abstract.Storage (documented behaviour, idempotent Connect, insertion order), go/ssa, the VC generator, z3, facts about strings.Split/Join, []rune, utf8, fmt %b; termination is not proved.',
}
checks = []
for p in sorted(SAFE | FULL):
    k = 'SAFE' if p in SAFE else 'FULL'
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p, 'technique': TITLE + (SAFE | FULL)[p], 'level': 'proof', 'level_note': NOTE[k]})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [], 'notes': 'See DESIGN.md. No hooks are needed in /repo: the verified text is the SSA of the current source.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
