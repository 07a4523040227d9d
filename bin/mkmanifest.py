#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification model-checked with TLC; real-code traces validated against it by TLC'
NOTES = {
 'C01': 'Encoder/decoder pair model-checked exhaustively at reduced precision for all short histories; real segments (carries and long pending runs steered) decoded by the specification at full precision. Trusts TLC and the harness recording.',
 'C02': 'Validity invariant of adaptation checked for all histories at reduced precision; every default table, every alphabet/symbol/counter and long skewed histories of the real coder compared state by state.',
 'C03': 'Whole-byte and self-containment invariants on the model; real coder objects reused over several segments and real decoders stopping mid-stream validated by the specification.',
 'C04': 'Round trip and prefix-freeness of each code checked on the specification over all small values; real writers and readers compared on exhaustive small domains, boundaries and random values.',
 'C05': 'All operation sequences of the given length enumerated by TLC and replayed into the real writer; long random histories validated.',
 'C06': 'Real output of sequences of OBUs parsed by the specified length-delimited format.',
 'C07': 'Configurations generated from the specified syntax, written by the real code, parsed by the specification as a decoder would.',
 'C08': 'Metadata values generated from the specified syntax, written by the real code, parsed by the specification.',
 'C09': 'Frame configurations generated from the specified syntax, written by the real code, parsed by the specification with the state in force.',
 'C10': 'Histories of headers through the real encoder; the state after each compared with the one the specification derives from the bits.',
 'C11': 'All argument lists up to a bound enumerated by TLC and replayed into the real parser, plus random ones.',
 'C12': 'All limits and missing-option subsets enumerated by TLC and replayed into the real parser/validator; runs of the real program.',
 'C13': 'Delivery schedules enumerated by TLC and replayed through pipes into the real reader.',
 'C14': 'Runs of the real program over sizes, input lengths, counts, sinks and delivery schedules; output judged by the specified stream format.',
 'C15': 'Parameter and neighbour combinations enumerated; the table the real code used identified by observing which table changed, compared with the specified context rule.',
 'C17': 'Superblock walks and unit histories from the model coded by the real tile encoder; the specification decodes the coded symbols and compares units, predictions and record.',
 'C18': 'Mode information of random blocks between consistent neighbours coded by the real tile encoder; the specified decoder reads the real bits and compares fields and state. Laws of segment interleaving, steps, reference trees and motion vector codes model-checked.',
 'C19': 'Laws of the candidate list model-checked over all small neighbourhoods; lists of the real encoder compared with the specified scan on random neighbourhoods.',
 'C20': 'Tiles of random frames coded by the real tile encoder and decoded by the specification; records and state compared. Exact cover and ranges model-checked for arbitrary element streams.',
 'C21': 'Round trip of the group syntax model-checked; groups of the real encoder parsed by the specification, tiles compared with the same tiles coded alone.',
 'C22': 'All tables of the format are constants of the specification (checked against an independent AV1 implementation when written); shape and laws model-checked; every built-in table compared.',
 'C23': 'Configurations are behaviours of the header specification; streams the real encoder writes for them are decoded by the specification from the bytes alone (framing, headers, tile groups, tiles).',
 'C16': 'Derivations evaluated over their domains (exhaustive where finite) and compared with their definitions.',
}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
have = set(x.upper() for x in re.findall(r'^def (c\d\d)\(', open(V + '/bin/check.py').read(), re.M))
checks, na = [], []
for p in props:
    if p in have:
        checks.append({'property': p, 'quick_cmd': 'python3 bin/check.py ' + p,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + p,
                       'technique': TECH, 'level': 'model_checking', 'level_note': NOTES[p]})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh',
     'hooks': {'guard': 'av1enc_verif', 'enable': 'RUSTFLAGS="--cfg av1enc_verif" (set by bin/vlib.py when it builds harness/)',
               'source_commits': subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], capture_output=True, text=True).stdout.split()[::-1]},
     'checks': checks, 'not_applicable': na,
     'notes': 'bin/check.py <ID> runs one check; spec/ holds the specification; known-findings.json lists repaired and recorded defects.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print([c['property'] for c in checks], [n['property'] for n in na])
