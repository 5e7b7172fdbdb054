import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'), encoding='utf8')]
NOTE = {
 'C01': 'Seeded schedules of 2-4 threads preempted at lines or instructions; each answer compared with the answer alone.',
 'C02': 'Seeded schedules of concurrent builds and displays over shared grammar parts; compared with each alone.',
 'C03': 'Seeded histories of uses of shared parts under simulated address reuse; compared with a fresh copy.',
 'C04': 'Seeded histories of holding, re-reading, mutating, dropping; plus every stretch of tokens re-parsed alone.',
 'C05': 'Seeded interleavings of open/next/close/drop by one or several threads; every item compared.',
 'C06': 'Outside exception at chosen line sites of a call, then the histories that follow; compared with never having been made.',
 'C07': 'Outside exception at chosen line sites of builds and displays, then repeats; compared with a fresh copy.',
 'C08': 'Failure of the n-th call of a callback or item of a stream, 30 exception types; must surface, later answers complete.',
 'C09': 'The same history in 3 processes of different hash seed, address and collection policy; outcomes must be equal.',
 'C10': 'Seeded request histories over several analysers, tiny caches, threads, failures; against the analyser itself.',
 'C11': 'Seeded configuration histories against an executable model of tokenizers; threads own different tokenizers.',
 'C12': 'Simulated drawing program with every outcome of starting and running; failing ones may only raise.',
 'C13': 'Cycles of ever new work with faults: live blocks must stop growing; weak references must die.',
 'C14': 'Token streams of every shape, slow, failing and shared; accounts of reading and of the token objects.',
 'C15': 'Callbacks re-enter the library at chosen invocations, nested and with threads; inner and outer compared with alone.',
}
checks = []
na = []
for p in props:
    if p['id'] in NOTE:
        checks.append({
            'property': p['id'],
            'quick_cmd': './check.sh %s --tier quick' % p['id'],
            'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
            'technique': 'deterministic simulation with fault injection, seeded search',
            'level': 'exploration',
            'level_note': NOTE[p['id']] + ' Exploration, no proof: assumes the interpreter\'s C code is '
                          'atomic and uses the catalogue of grammars in dst/catalog.py plus generated ones.',
        })
    else:
        na.append({'property': p['id'], 'reason':
                   'A pure function of its input: no thread, clock, I/O, failure or history is involved, so '
                   'there is no schedule or fault for a simulator to choose; it would be input generation.'})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -W ignore -c "import dst.run, dst.worker"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every seam is installed from outside before the package is imported '
                    '(dst/seams.py).'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
