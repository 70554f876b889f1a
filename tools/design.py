#!/usr/bin/env python3
"""Regenerates DESIGN.md from the text below, the property modules, known_findings.txt and seeded/*."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTRO = '''# How model checking decides the properties of pcb-tools

(Regenerated by tools/design.py; the tables come from the property modules, known_findings.txt and seeded/.)

## The system and the method

pcb-tools is a sequential library: it has no threads, no crash-prone storage and no schedule. What varies from run to
run are *inputs* (programs of a modal machine: Gerber, Excellon, IPC-D-356), *histories* (sequences of operations on
one object or on several objects that might share state) and *configurations* (formats, units, file names, layouts).
Model checking is applied to it in the form the guide gives for sequential libraries:

* **A reference model** of each part, written in Python in `/verif/mc` and kept boring: the Gerber graphics-state
  machine (`gmodel.py`), aperture macros (`macros.py`), the drilling machine (`emodel.py`), exact shapes (`shapes.py`),
  documents and what conversions do to them (`gdocs.py`), and small models inside the property modules (netlist,
  layer stack, hint table, settings). Models use exact rational arithmetic where the format does. They are written
  from the format definitions and the documentation, not from the code.
* **Explicit-state exploration.** Where the subject is a state machine, the model's reachable states are closed under
  all events of a small alphabet by breadth-first search. *Every transition* out of *every reachable state* is
  replayed on the real code: shortest trace to the state, the event, then a probe that makes the hidden modal state
  visible in the output. In addition all event sequences up to a depth are run without merging states, so that state
  which the model does not know of (caches, shared defaults, leftovers) is exercised too.
* **Bounded-exhaustive exploration** ("exploration" level in the manifest) where there is no interesting state: every
  element of a finite product of input dimensions, run on the real code against the model.
* **Binding.** The deciding runs are always on the real code imported from /repo, with the interpreter the tests use
  (PyPy 3.9). No result is derived from the model alone; each model trace counted in the evidence (`traces_replayed`)
  was executed and compared. There is nothing to rebuild: Python sources are read at each run, from the working tree.
* **No sampling.** `mc/core.py` evaluates the whole case list (8 workers, case k goes to worker k mod 8); there is no
  randomness, no time cap on the exploration and no dependence on VERIF_SEED. A case that does not end within its time
  limit or raises an exception is a violation. The evidence file states cases, distinct outcomes, states, transitions.
* **Replays.** A violation is written to `replays/<id>-<hash>.json`; `./check.sh replay FILE` runs just this case.

Nondeterminism: the library has none but hash ordering of sets (netlists), which the oracles compare as sets.

Comparison is by what is observable, never by how code is written: objects drawn and drilled (kind, place, size,
polarity, order where order is visible), text that is read back, extents, counts, tables, files.

## The checks
'''
ORACLE = {
    'P01': ('exact integers: a number is n units of 10^-b', 'digit counts, signs and modes interact; tests list a dozen values'),
    'P02': ('the Gerber graphics-state machine, exact rationals', 'modal state hidden behind several commands is only '
            'visible through a particular later command; every transition is followed by a probe'),
    'P03': ('dictionary of apertures; each object carries the aperture bound at its time', 'rebinding and sharing between '
            'apertures need particular orders'),
    'P04': ('the objects and the list of commands before writing', 'every pair of commands is written in every format, so '
            'state carried between statements when writing is covered'),
    'P05': ('evaluation of the expression tree that was rendered to text', 'all trees with signs everywhere, where tests have '
            'a few expressions'),
    'P06': ('geometry of each primitive from the format definition', 'lattice of every modifier with rotations and exposures'),
    'P07': ('model objects scaled and moved exactly', 'sharing between statements, apertures, macros and objects shows only '
            'after particular histories'),
    'P09': ('analytic extents (support function of the pen plus path)', 'angle and quadrant cases multiply'),
    'P10': ('a newly made shape with the same attributes', 'stale remembered results need query, change, query'),
    'P11': ('the drilling machine', 'as P02'),
    'P12': ('holes and tools before writing', 'as P04'),
    'P13': ('model holes scaled and moved exactly', 'as P07; holes and tools are shared'),
    'P14': ('recomputation from the model holes', 'histories of tool updates and conversions'),
    'P15': ('the declared numbers; an admissible completion where nothing is declared', 'combinations of declaration forms'),
    'P16': ('column layout of the format, model of variables and continuation', 'fields are optional and shift nothing'),
    'P17': ('first entry of the hint table that fits, with a separate definition of "fits"', 'order of hints and substrings'),
    'P18': ('physical stack order; class predicates', 'multisets and listing orders'),
    'P19': ('first tell-tale line decides; all entry points agree', 'contents x line ends x names x entry points'),
    'P20': ('model objects; and both the reference machine and the real parser read the output', 'deduplication of apertures '
            'and modal output state need particular sequences'),
    'P21': ('model holes in order', 'as P20'),
    'P22': ('point membership of each object, painted in order', 'overlaps of objects with polarities and order'),
    'P23': ('the same history of each object alone', 'interleavings of histories of several objects'),
    'P24': ('a record of five fields', 'histories of assignments in two conventions'),
    'P25': ('exact convex hull by orientation tests', 'all point sequences including repeated and collinear points'),
    'P26': ('the flattened program', 'all splits'),
    'P27': ('the objects of the program in plain layout', 'all layouts'),
    'P28': ('the rows of the table', 'sharing of one table between files'),
    'P29': ('point membership of the objects of the files, views and mirroring of the side', 'sets of layers, themes and '
            'sizes multiply; misregistration shows only with asymmetric layers of several classes'),
    'P30': ('record of settings; the calls a recording backend receives', 'sequences of assignments, files and ways of '
            'calling multiply; a call missed, doubled or out of order shows only in the next file or one kind of object'),
    'P31': ('the list of commands of the program, numbers evaluated by the modal model', 'the meaning of a line depends on the '
            'state before it; parameters, formats and conversions multiply'),
    'P33': ('the modal models of P02, P11 and P32 after the commands complete before the cut; real limits of the file size for writes',
            'tests read complete files; what a parser does with a rest at the end shows only where something is cut off'),
    'P32': ('the list of commands of the program, numbers evaluated by the modal model', 'defaults of missing parameters, modal '
            'operations and conversions multiply; a wrong one among forty kinds of statement shows in no picture'),
}
NOTES = '''
## Domain decisions

Properties are stated for what the formats allow and the library documents; where the library documents or its existing
tests pin something narrower, the domain of the check is narrowed and the assumption is listed in the evidence. The
main ones: contours of one straight segment enclose nothing and are ignored on both sides; no polarity change or flash
inside regions; macro polygons and thermals are rotated about the origin only; lower-left lines and moire have no
drawable form; incremental (FS..I) Gerber notation is not interpreted by the library and excluded; a drill file that
declares nothing about its numbers admits any completion; OF/SF values have at most 5 decimals (the writer truncates,
pinned by tests); netlist information columns that the decoder does not read are not considered.

## Known limits of the method here

Bounds are small (two apertures, a 2x2 or 3x3 grid, histories of 3 or 4): faults which need larger values or longer
histories than the stated ones are out of reach. Floating point is compared to 1e-9, not bit by bit.
'''


def main():
    out = [INTRO]
    titles = dict((json.loads(l)['id'], json.loads(l)) for l in open(os.path.join(ROOT, 'properties.jsonl')))
    cost = {}
    for f in glob.glob(os.path.join(ROOT, 'tools', 'cost.json')):
        cost = json.load(open(f))
    mods = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'mc/props/p*.py'))):
        c = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    c[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        mods[c['PID']] = (os.path.basename(f), c)
    for pid in sorted(titles):
        out.append('### %s. %s\n' % (pid, titles[pid]['title']))
        if pid not in mods:
            out.append('Check not built (see not_applicable in MANIFEST.json).\n')
            continue
        f, c = mods[pid]
        a = c.get('ASSUMPTIONS', ())
        a = [a] if isinstance(a, str) else a
        oracle, why = ORACLE[pid]
        out.append('* module: `mc/props/%s`, level %s' % (f, c['LEVEL']))
        out.append('* enumerated: ' + c['RULE'])
        out.append('* oracle: ' + oracle)
        out.append('* bounds, quick: %s; thorough: %s' % (c['BOUNDS']['quick'], c['BOUNDS']['thorough']))
        if a:
            out.append('* assumes: ' + '; '.join(a))
        out.append('* reaches what tests cannot: ' + why)
        if pid in cost:
            out.append('* cost (8 cores): ' + cost[pid])
        out.append('')
    out.append(NOTES)
    out.append('## Genuine defects found\n')
    out.append('The checks found these defects in the pinned tree; each "fixed" line is a minimal `fix:` commit in /repo '
               '(suite unchanged and passing). "finding" lines are recorded, not repaired.\n')
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        if l.startswith(('finding:', 'fixed:')):
            out.append('* ' + l.strip())
    out.append('''
P07 finding: a macro definition is one statement shared by all its apertures, and unit conversion evaluates it in place
with the parameters of the last one; a repair needs a redesign of how apertures keep instances of their macro (each
statement would have to be written once per aperture), so it is recorded instead.

## Planted bugs (seeded/) and the checks that catch them
''')
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
        d = json.load(open(m))
        out.append('* `%s` (%s): %s Needs: %s Caught by: %s.' % (
            os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'].rstrip('.') + '.',
            d['needs'].rstrip('.') + '.', d.get('caught_by', 'not yet run')))
    extra = os.path.join(ROOT, 'tools', 'design_extra.md')
    if os.path.exists(extra):
        out.append('\n' + open(extra).read())
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
