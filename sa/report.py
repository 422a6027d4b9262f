'''Run the analyses of one property, match known findings, write the evidence.'''
import collections
import json
import os
import time

LEVEL = 'other'


def known(here):
    '''Entries of known-findings.txt that suppress: [(property, key, text)].'''
    out = []
    p = os.path.join(here, 'known-findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        line = line.strip()
        if not line.startswith('known: '):
            continue
        head, _, text = line[7:].partition(' :: ')
        prop, _, key = head.partition(' ')
        out.append((prop.split('=')[1], key.strip(), text))
    return out


def key_of(r):
    return '%s:%s %s' % (r['spec'], r['obligation'], json.dumps(r['params'], sort_keys=True, default=str))


def check(prop, root, tier, seed, evidence, here):
    from props import PROPERTIES
    meta = {p['id']: p for p in PROPERTIES}[prop]
    t0 = time.time()
    results, facts, errors = [], {}, []
    for engine in meta['engines']:
        mod = __import__('sa.' + engine['engine'], fromlist=['run'])
        rs, info, errs = mod.run(root, tier, seed, here, **{k: v for k, v in engine.items() if k != 'engine'})
        results += rs
        errors += errs
        facts[engine['engine']] = info
    counts = collections.Counter(r['verdict'] for r in results)
    sup = known(here)
    bad, listed = [], []
    for r in results:
        if r['verdict'] == 'violation':
            hit = [s for s in sup if s[0] == prop and s[1] == key_of(r)]
            (listed if hit else bad).append((r, hit))
    seen = set()
    for r, hit in listed:
        if hit[0] not in seen:
            seen.add(hit[0])
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
    decided = counts['held'] + counts['agrees'] + counts['violation']
    os.makedirs(evidence, exist_ok=True)
    replay = os.path.join(evidence, '%s.violations.json' % prop)
    if os.path.exists(replay):
        os.remove(replay)
    slim = lambda r: {k: r[k] for k in ('spec', 'obligation', 'params', 'verdict', 'message', 'at', 'subjects', 'facts') if k in r}
    ok = [r for r in results if r['verdict'] in ('held', 'agrees')]
    step = max(1, len(ok) // 8)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'explanation': meta['explanation'],
            'obligations': len(results),
            'discharged': counts['held'],
            'agree_at_every_sampled_valuation': counts['agrees'],
            'undecided': counts['undecided'],
            'undecided_list': [slim(r) for r in results if r['verdict'] == 'undecided'][:40],
            'obligation_templates': sorted({'%s:%s' % (r['spec'], r['obligation']) for r in results}),
            'analysis': facts,
            'samples': [slim(r) for r in ok[::step]][:8],
        },
        'assumptions': meta['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    with open(os.path.join(evidence, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('%s: %d obligations: %d proved, %d agree, %d undecided, %d violated (%.1f s)' % (
        prop, len(results), counts['held'], counts['agrees'], counts['undecided'], counts['violation'], time.time() - t0))
    for e in errors:
        print('ANALYSIS ERROR: %s' % e)
    if bad:
        with open(replay, 'w') as f:
            json.dump([slim(r) for r, _ in bad], f, indent=1, default=str)
            f.write('\n')
        for r, _ in bad[:20]:
            print('%s: %s %s: %s' % (r['at'], r['obligation'], json.dumps(r['params'], default=str), r['message']))
            for s in r.get('subjects') or ():
                print('    of %s' % s)
            if r.get('facts'):
                print('    when %s' % '; '.join(r['facts'][:6]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if errors:
        return 2
    if not decided:
        print('ANALYSIS ERROR: no obligation was decided')
        return 2
    return 0
