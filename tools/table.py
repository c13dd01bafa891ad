#!/usr/bin/env python3
"""Rewrites section 4 of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
LATE = {'p26-reference-node', 'p06-reversed-limits', 'p11-rounded', 'p15-infix', 'p19-help-key', 'p09-partial-earlier', 'p20-add-in-place', 'p22-words-as-names',
        'p17-comment-piece', 'p24-values-pile', 'p26-dynamic-scope'}
MISSED = set()
rows = []
for f in sorted(glob.glob(HERE + '/../seeded/*/meta.json')):
    ID = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append('| %s%s | %s |' % (ID, ' (missed at first)' if ID in LATE else ' (MISSED)' if ID in MISSED else '', m['needs'].replace('|', '/')))
text = '''## 4. Planted changes

Each change in `seeded/` was written from a property's text and the code. `tools/seed.py verify` has confirmed that it builds,
passes the stable tests, changes lines of the original repository, and that its demonstration tells the two trees apart. Each is
caught by the quick check of the property in its name, %d of %d; %d were missed when first tried, and the check was extended to the
kind of input they need (never to the change itself). Column two says what the change needs in order to manifest.

| change | needs |
|-|-|
%s

Two more sources of changes were used. *Random mutations* (comparisons, conditions, constants, deleted statements; `ast`-level) of
all modules were run through the stable tests and the checks to find blind spots; what survived was dead code, code for
Windows or `tracemalloc` output, equivalent mutants, or led to a new case. *Refactorings* (about 30 behaviour-preserving edits over
utils, tokens, elements, interface, cli and cmd: extracted helpers, reordered statements, rewritten loops and comprehensions) were
applied together to a copy; all checks stay quiet on it, with nothing undecided.
''' % (len(rows) - len(MISSED), len(rows), len(LATE), '\n'.join(rows))
p = HERE + '/../DESIGN.md'
d = open(p).read()
i = d.find('## 4. Planted changes')
d = (d if i < 0 else d[:i]).rstrip('\n') + '\n\n' + text
open(p, 'w').write(d)
