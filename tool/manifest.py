"""Write MANIFEST.json from props.PROPS and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.PROPS: continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd=f'python3 tool/check.py {i} --tier quick', thorough_cmd=f'python3 tool/check.py {i} --tier thorough',
        evidence_file=f'evidence/{i}.json', technique='contracts on the extracted code, discharged by Verus; failing-input search on the real crate',
        level='proof', level_note=p.get('level_note') or 'Every function listed in the evidence under functions_under_contract is verified against its contract by Verus from text extracted from /repo on each run; library functions are assumed through the prelude contracts listed in trusted_base.' + (' Exercised only by the bounded harness: ' + ', '.join(p['bounded']) + '.' if p.get('bounded') else '')))
na = [dict(property=i, reason=props.NA.get(i, 'no contract yet: not claimed')) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd='bash tool/setup.sh',
    hooks=dict(guard='verif_hooks', enable='RUSTFLAGS="--cfg verif_hooks" (rustc cfg; off by default)', source_commits=props.HOOKS),
    checks=checks, not_applicable=na,
    notes='All checks share one driver (tool/check.py). See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'claimed', len(na), 'not applicable')
