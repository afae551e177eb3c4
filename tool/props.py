#!/usr/bin/env python3
"""single source of the property list: writes properties.jsonl and MANIFEST.json (python3 tool/props.py). A property is claimed when rules/rules_<id>.py exists and is listed here without 'na'."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

VN = 'gated value-numbering dataflow over the clang AST (static analysis)'
prop('C01', 'The interaction list, per-body maps and stored positions always agree',
 'At every moment each contact between two bodies is found exactly once in the global list and under both its bodies, whatever sequence of insertions, erasures, clearings and reloads happened before. '
 'An insertion or erasure either takes full effect and reports success, or changes nothing and reports failure; a lookup by a pair of ids, in either order, finds the contact exactly when it is there. '
 'Iterating over contacts while dropping the unwanted ones skips none, and concurrent changes are serialised.',
 ['histories', 'inputs', 'schedules'], 'every sequence of insert, erase, erase-by-position, request-erase sweep, clear, save and load operations with any ids, from any thread',
 'Tests insert and erase a few contacts; the invariant has to hold after every history, including erasing the last or last-but-one entry, contacts whose first body is already gone, and sweeps in which several neighbours are dropped.',
 ['core/InteractionContainer.cpp', 'core/InteractionContainer.hpp', 'core/Interaction.cpp', 'core/Body.hpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/common/Collider.cpp'],
 [('insert / erase / find / clear', 'core/InteractionContainer.cpp'), ('position stored in the interaction', 'core/Interaction.hpp'), ('conditional erasure sweeps', 'core/InteractionContainer.hpp')],
 VN + ': per-path effect summaries against the legal transitions of the representation; who-writes query', 'All paths of all container members, for all argument values; assumes std containers behave as specified and that callers insert ids of existing bodies.')
prop('C02', 'A body id is its slot; erasing leaves no dangling id, clump or contact',
 'A body\'s id is always the index under which the simulation finds it, and is given out exactly once among living bodies. '
 'Erasing a body empties its slot, cancels all its contacts and detaches it from its clump; erasing a clump releases (or, if asked, erases) every member; erasing or inserting at an id that is not there, out of range or taken is refused without any effect. '
 'Iterating over bodies visits every living body once and never touches an empty slot.',
 ['histories', 'inputs'], 'every sequence of appends, inserts at an id, erasures and clump operations, with any id values',
 'Tests erase one or two bodies in tiny scenes; stale ids only show for particular histories (clump members added later, erase with negative id, holes at the end of the table).',
 ['core/BodyContainer.cpp', 'core/BodyContainer.hpp', 'core/Body.cpp', 'core/Clump.cpp'],
 [('insert / insertAtId / erase / exists', 'core/BodyContainer.cpp'), ('iterator skipping empty slots', 'core/BodyContainer.hpp')],
 VN + ': per-path effect summaries against the specified transitions; who-writes query', 'All paths of all container members for all ids; assumes the raw table setter used by the MPI code gets consistent tables.')
prop('C03', 'No load on a body is lost, counted twice or leaked, with any number of threads',
 'The total force and torque (and prescribed displacement and rotation) read for a body after summation is the sum of everything added to that body since the last reset, by all threads, plus its permanent load. '
 'Adding a load to one body never changes another body\'s load or drops a stored one when storage grows; a reset clears everything except permanent loads unless they are to be dropped too. '
 'Motion is never integrated from unsummed loads, and a read of an unsummed total is refused.',
 ['schedules', 'histories', 'inputs'], 'every interleaving of additions by any number of threads, every order of additions, permanent loads, resets, summations and reads, every id',
 'Tests run single-threaded with loads of few bodies; the per-thread storages, growth, and permanent-load paths depend on thread count, ids and order.',
 ['core/ForceContainer.hpp', 'core/ForceContainerParallel.cpp', 'core/ForceContainerSerial.cpp', 'pkg/common/ForceResetter.hpp', 'pkg/dem/NewtonIntegrator.cpp'],
 [('per-thread storage and summation', 'core/ForceContainerParallel.cpp'), ('synchronisation before integration', 'pkg/dem/NewtonIntegrator.cpp')],
 VN + ': per-path effect summaries, loop-coverage and interval reasoning over branch facts', 'All paths, all ids, any thread count fixed at construction (documented restriction).')
prop('C04', 'Every contact law obeys action and reaction',
 'Whenever a contact law loads bodies, the forces it hands out sum exactly to zero and act on the two bodies of that contact (or on the nodes that carry them), for every contact state and every branch of the law. '
 'No branch loads only one of the two.',
 ['inputs', 'configurations'], 'every contact law compiled in, every branch, every geometry, material and state value, periodic or not',
 'Tests drive a handful of laws through one loading path; most branches (capillary, viscous, cohesive, crack, twist) and all parameter combinations are never executed.',
 ['pkg/dem', 'pkg/common', 'pkg/pfv'], [('Law2 functors: go()', 'pkg/dem/*.cpp, pkg/common/*.cpp'), ('applying forces at the contact point', 'pkg/dem/DemXDofGeom.cpp, pkg/dem/ScGeom.cpp')],
 VN + ': polynomial normal form of the summed loads per path', 'Exact algebra over uninterpreted inputs (real arithmetic, not rounding); loops are one generic iteration; laws compiled out are not analysed.')
prop('C05', 'Contact forces of a pair act at one shared point (no spurious net torque)',
 'On every branch of every contact law that applies torques, the moments applied to the two bodies are those of one force acting at one point shared by both, plus moments that cancel; the net moment of a contact vanishes for every contact state, including contacts across a periodic boundary, where the image position is the lever-arm reference. '
 'Contact laws of lubricated contacts are outside this statement.',
 ['inputs', 'configurations'], 'every contact law that applies torques, every branch, every state value, periodic or not',
 'Angular momentum is asserted by no test; wrong arms only show in branches (periodic, rolling moments, rotated images) that no test executes.',
 ['pkg/dem', 'pkg/common'], [('Law2 functors: go()', 'pkg/dem/*.cpp, pkg/common/*.cpp'), ('applying forces at the contact point', 'pkg/dem/DemXDofGeom.cpp, pkg/dem/ScGeom.cpp')],
 VN + ': polynomial normal form of the net moment per path', 'Exact algebra over uninterpreted inputs; sphere-like geometries assume normal from 1 to 2 and distance r1+r2-penetration; lubrication laws excluded.')
exec(open(os.path.join(V, 'tool', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'tool', 'props_more.py')) else None

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
        assert os.path.exists(os.path.join(V, 'rules', 'rules_%s.py' % p['id'].lower())), p['id']
        cmd = 'python3 check.py ' + p['id']
        checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd=cmd, technique=p['technique'], level='other', level_note=p['note']))
    json.dump(dict(version=1, setup_cmd='bash tool/setup.sh', checks=checks, not_applicable=na,
                   notes='No hooks: nothing is instrumented or executed; the checks parse /repo\'s working tree with the installed clang 18 libraries.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == "__main__": main()
