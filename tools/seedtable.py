"""section 7 of DESIGN.md: the planted bugs"""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
MISSED = {'disp-alt': 'formatter flags in c11.rs', 'rest-none': 'own rest wrappers in c21.rs', 'comp-vis': 'visibilities in c21.rs', 'hyg-rest': 'only29.rs', 'hyg-match': 'only29.rs', 'match-guard': 'literal guards in c20.rs and g20.rs', 'tag-suffix': 'affixes in near18.rs',
 'grow-cap': 'large blocks', 'float-whole': 'constant floats', 'avx-page': 'long texts', 'string-quick': 'long untrusted texts', 'hyg-node': 'names from the expansion', 'node-chunks': 'len14.rs', 'case-tags': 'near18.rs', 'bool-dedupe': 'programs with every value spelled alike', 'match-same': 'many arms spelled alike', 'match-arms26': 'many arms'}
NEW = set('disp-alt rest-none comp-vis hyg-rest hyg-match match-guard tag-suffix'.split())
for k, v in {'comp-case': 'similar parameter names in only21.rs', 'clear-free': 'clear in h_large and h_with', 'clone-spare': 'h_big', 'deep-tag': 'fixed text in wide18.rs', 'panic-len': 'h_big'}.items(): MISSED[k] = v; NEW.add(k)
MISSED.update({'match-many65': 'wide corpora', 'node-many': 'wide corpora', 'comp-posorder': 'wide corpora', 'ctor-sorted': 'wide corpora', 'iter-wrap': 'h_12_huge'})
for k, v in {'cow-own': 'copies on the heap in c28.rs', 'add-replace': 'every way to append in h_reserve', 'iter-resume': 'size hints that promise more', 'match-effects': 'h_23_match_effects', 'string-forget': 'empty texts in C27', 'esc-chunk': 'long texts of multi-byte characters'}.items(): MISSED[k] = v; NEW.add(k)
for k, v in {'match-closure': 'arms that leave the function (h_20_flow_*)', 'comp-let': 'arguments that borrow from temporaries (h_21_temp)', 'iter-borrow': 'iterator templates that are returned (h_12_returned)', 'default-alloc': 'h_28_empty'}.items(): MISSED[k] = v; NEW.add(k)
p = os.path.join(V, 'DESIGN.md'); s = open(p).read(); k = s.find('\n## 7.')
if k >= 0: s = s[:k]
s = s.rstrip('\n') + '\n\n## 7. Table of planted bugs\n\nThe last column names the part of the machinery made for bugs of this kind; * marks what was added because this very bug was missed at first. All are caught now.\n\n| bug | check | needs | made for it |\n|---|---|---|---|\n'
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); s += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '\\|'), MISSED.get(i, '') + ('*' if i in NEW else ''))
open(p, 'w').write(s)
