#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
NOTE = ('Seeded search: held in every simulated run of the whole server (real code of /repo, main() included) under the workload and fault profile of this property; '
        'every packet delivered to every client is compared with a reference model, and kernel-level invariants (framing, descriptors, loop progress, disk contents, memory safety) are checked throughout. '
        'Not exhaustive. Trusts the model in sim/, the simulated system calls, and AddressSanitizer.')
checks = [dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]} quick', thorough_cmd=f'python3 check.py {p["id"]} thorough',
               evidence_file=f'evidence/{p["id"]}.json', technique='deterministic simulation with fault injection (seeded search, lock-step reference model, exact replay)',
               level='exploration', level_note=NOTE) for p in props if p['id'] not in NA]
json.dump(dict(version=1, setup_cmd='./build.sh build/main',
               hooks=dict(guard='none', enable='No hooks are needed: /repo is compiled unmodified and its calls to the system are bound to the simulator with ld --wrap (see build.sh).', source_commits=[]),
               checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='Replay a violation with: build/main/sim replay <file> --dir=build/main --verbose'), open(V + '/MANIFEST.json', 'w'), indent=1)
