#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
    'N01': "Constant-time execution and absence of secrets in memory after use are properties of the compiled code's timing and of the Go runtime's memory, not of any schedule, delivery order or fault a simulator controls; a deterministic simulation has no oracle for them.",
    'N02': "That the primitives (X25519, Ed25519 arithmetic, AES, HMAC-SHA-256) resist cryptanalysis is a hardness assumption about mathematics; no schedule or fault sequence can decide it. The simulator assumes it.",
}
technique = "deterministic simulation with fault injection"
how = {
    'C05': "seeded mutation and damage of every message and stored record inside simulated histories; panics and hangs are violations",
    'C13': "simulated histories that approach and cross every documented limit, compared with a bounded reference model",
    'C18': "the same seeded history run with reloading and live stores in lock-step; re-serialization at every load",
    'C19': "seeded cooperative scheduling of concurrent conversations at every store, log and entropy seam, transcripts compared with solo runs",
    'C20': "entropy source faults at every request; keys in results traced to the delivered entropy",
    'C21': "seeded scheduling of asynchronous requests parked at entropy and callback seams; completions compared with synchronous results",
    'C22': "simulated network between the library and an independent implementation of the protocol on the standard library",
    'C26': "sealed envelopes delivered through a corrupting network to several recipients, compared with the sealed plaintext",
    'C27': "two displays and an intermediary in simulated key exchanges, compared with an independent computation",
}
extra = {
    'C05': "Exploration: a run is a seeded history; every probe is a mutated or crafted input in the protocol state reached. Assumes hangs show within 90 s.",
    'C13': "Exploration around each limit; sizes read from stored structures.",
    'C19': "Exploration of interleavings at seam granularity; preemption between seams is not explored (the code between two seams is only reached through shared memory, which the schedule cannot split).",
    'C21': "Exploration of interleavings at seam granularity (entropy, callbacks).",
    'C22': "Exploration; trusts Go's standard library X25519, AES, HMAC, SHA-2 and this framework's own Edwards arithmetic.",
}
note = "Seeded search over schedules and fault sequences: everything explored held; no claim beyond the explored runs. Judged against a symbolic model of the protocol inside the simulator; assumes the standard library primitives are correct and the simulated stores behave like real ones."
import subprocess
claimed = set(os.environ.get('CLAIMED', '').split(',')) if os.environ.get('CLAIMED') else {p['id'] for p in props} - set(NA)
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [], 'not_applicable': [], 'notes': "Replays: ./replay.sh <file>. No hooks were needed in /repo: all seams (stores, logger, crypto/rand.Reader, callbacks, wire bytes) exist in the shipped code."}
for p in props:
    i = p['id']
    if i in NA:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
    elif i in claimed:
        m['checks'].append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': technique + ' (' + how.get(i, 'seeded schedules and faults over the real library, every step compared with a reference model') + ')',
            'level': 'exploration', 'level_note': extra.get(i, note)})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
