#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T='Verus contracts on the functions of /repo, extracted mechanically on every run'
N={
'C01':'Decompositions::next proved, for all sources and histories, to return the head of the canonical ordering of the decomposition and to keep the rest; tables proved equal to Unicode 16.0 data through the real lookups.',
'C02':'Recompositions::next proved against the D117 fold over the NFD/NFKD contract; compose proved against the data.',
'C03':'Laws proved as lemmas over the contracts of C01/C02 and facts about the data by evaluation.',
'C04':'quick_check (all specialised copies) proved sound against the specification of the forms.',
'C05':'is_nfX proved equal to "normalizing changes nothing".',
'C06':'StreamSafe::next and classify_nonstarters proved against UAX15-D4; the bound on runs and idempotence are lemmas.',
'C07':'stream-safe checks proved exact and their quick versions sound.',
'C08':'Lemma over the contracts: runs of nonstarters in NFKD are the same in every form.',
'C09':'Lookups proved equal to the data for every char.',
'C10':'decompose_canonical/compatible proved to feed the sink exactly the full decomposition.',
'C11':'compose proved equal to the primary composites for every pair.',
'C12':'is_public_assigned proved equal to the data for every char.',
'C13':'Replacements::next and decompose_cjk_compat_variants proved against the data.',
'C14':'Laziness clauses of the next() contracts (second copies of the functions): how much of the source a call may have read, for NFC counted through the decomposition to characters of the source.',
'C15':'Protocol part of the iterator contracts, over arbitrary (also unfused) sources.',
'C16':'Every trait method and constructor proved to run the transformation it is named after.',
'C17':'fmt proved to write exactly what iterating from that state yields, over a model of Formatter.',
'C18':'Every index, slice, arithmetic, unchecked-conversion and termination obligation of the crate discharged.',
'C19':'Contracts verified on the text selected without features, which is compared with (or verified beside) that selected with std; plus a differential run of both builds.',
}
S=' Trusted: Verus/Z3, the extractor, the Unicode data file, assumed contracts of std and tinyvec (DESIGN.md, "Trusted base"). Functions a change puts out of the verifier\'s reach are reported as bounded stand-ins, searched and not counted as proved.'
m=dict(version=1,setup_cmd='python3 check.py setup',
 checks=[dict(property=k,quick_cmd=f'python3 check.py {k}',thorough_cmd=f'VERIF_TIER=thorough python3 check.py {k}',evidence_file=f'evidence/{k}.json',technique=T,level='proof',level_note=v+S) for k,v in N.items()],
 not_applicable=[],notes='No hooks in /repo.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
