#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.

usage: check.py --property P01 [--tier quick|thorough] [--repo /repo]

exit 0: every obligation of the property is discharged (or undecided, listed as such)
exit 1: at least one construct of the current source violates it
exit 2: the analysis lost an anchor (a function it must judge no longer exists) or failed
"""
import argparse
import fnmatch
import glob
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def load(repo):
    from sa import project
    P = project.Project()
    P.load_package('AMAT', repo)
    specs = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'spec', '*.py'))):
        n = 'spec.' + os.path.basename(f)[:-3]
        specs[n] = P.load(n, f)
    return P, specs


def obligations(specs, deviations=False):
    """all obligations: name -> (spec module name, class, function, variant)

    deviations: instead the recorded deviations of known findings (see known_findings.json)"""
    from sa import oblig
    out = {}
    for n, m in specs.items():
        for cn, fn, node, o in oblig.spec_functions(m):
            full = '%s:%s.%s' % (n[5:], cn, fn)
            if bool(o.get('deviation')) != deviations:
                continue
            for v in oblig.variants(node, o):
                out[full if v == 'full' else full + ':' + v] = (n, cn, fn, v)
    return out


def callees(mod, fn, specs):
    """(on the object itself, name) of the program functions a reference uses: every attribute it or its helpers call or read"""
    import ast
    out, seen, todo = set(), set(), [(mod, fn)]
    while todo:
        m, f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute):
                out.add((isinstance(x.value, ast.Name) and x.value.id == 'self', x.attr))
            elif isinstance(x, ast.Name):
                if x.id[:1].isupper() and any(x.id in s.classes for s in specs.values()):
                    out.add((False, x.id))
                if x.id in m.funcs:
                    todo.append((m, m.funcs[x.id]))
                elif x.id in m.imports:
                    d = m.imports[x.id]
                    q, _, n = d.rpartition('.')
                    if q in specs and n in specs[q].funcs:
                        todo.append((specs[q], specs[q].funcs[n]))
    return out


def closure(names, specs, table, known):
    """`names`, the obligations of the program functions their references use, and of those summarised there (`calls`), and so on

    An obligation with a known finding belongs to the property it is recorded under."""
    from sa import oblig
    byname = {}
    for n, key in table.items():
        o = oblig.options(specs[key[0]].classes[key[1]].methods[key[2]])
        callee = o.get('impl', key[2])
        byname.setdefault(key[1] if callee == '__init__' else callee, []).append(n)
    skip = {f['rule'] for f in known}
    out, todo = list(names), [(n, True) for n in names]
    while todo:
        n, direct = todo.pop()
        key = table[n]
        fn = specs[key[0]].classes[key[1]].methods[key[2]]
        used = {(False, c) for c in oblig.options(fn).get('calls', ())}
        if direct:
            used |= callees(specs[key[0]], fn, specs)
        for own, c in sorted(used):
            for m in byname.get(c, ()):
                if m not in out and m not in skip and not (own and table[m][1] != key[1]):
                    out.append(m)
                    todo.append((m, False))
    return out


_W = {}


def work(task):
    name, key, repo = task
    try:
        from sa import oblig, config
        if repo not in _W:
            P, specs = load(repo)
            _W[repo] = (oblig.Session(P, config.TYPES, config.ARRAYS, config.PARAMS, config.UNIVERSE), specs)
        S, specs = _W[repo]
        mod = specs[key[0]]
        node = mod.classes[key[1]].methods[key[2]]
        o = S.decide(mod, key[1], key[2], node, oblig.options(node), key[3])
        return dict(name=name, status=o.status, msgs=o.msgs, loc=o.loc, stats=o.stats, seconds=o.seconds)
    except RecursionError:
        return dict(name=name, status='undecided', msgs=['analysis recursion limit'], loc=None, stats={}, seconds=0.0)
    except Exception:
        return dict(name=name, status='error', msgs=[traceback.format_exc()], loc=None, stats={}, seconds=0.0)


def run(names, table, repo, jobs):
    import multiprocessing as mp
    cost = {}
    cf = os.path.join(HERE, 'spec', 'costs.json')
    if os.path.exists(cf):
        cost = json.load(open(cf))
    tasks = [(n, table[n], repo) for n in sorted(names, key=lambda n: (-cost.get(n, 1.0), n))]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(jobs, max(1, len(tasks)))) as pool:
        return list(pool.imap_unordered(work, tasks, chunksize=1))


def again(names, repo, jobs, sa_seed, lanes=None):
    """the same obligations in a fresh process with other random valuations"""
    if not names:
        return []
    env = dict(os.environ, SA_SEED=str(sa_seed))
    if lanes:
        env['SA_LANES'] = str(lanes)
    code = ('import sys,json;sys.path.insert(0,%r);sys.setrecursionlimit(20000);import check;'
            'P,s=check.load(%r);t=check.obligations(s);print("@@"+json.dumps(check.run(%r,t,%r,%d),default=str))'
            % (HERE, repo, list(names), repo, jobs))
    o = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True)
    for line in o.stdout.splitlines():
        if line.startswith('@@'):
            return json.loads(line[2:])
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    t0 = time.time()
    import props
    pr = props.BY_ID[a.property]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ.setdefault('SA_SEED', str(seed))
    try:
        P, specs = load(a.repo)
    except SyntaxError as e:
        print('cannot parse the analysed sources: %s' % e)
        return 2
    table = obligations(specs)
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['known']
    names = closure(props.select(pr, table), specs, table, known)
    if not names:
        print('no obligations selected for %s' % a.property)
        return 2
    floor = pr.get('floor', 0)
    if len(names) < floor:
        print('only %d obligations, expected at least %d' % (len(names), floor))
        return 2
    res = run(names, table, a.repo, a.jobs)
    rounds = 1
    votes = {r['name']: 0 for r in res if r['status'] == 'violation'}
    if a.tier == 'thorough':
        # repeat with independent random valuations, the first time four times as many
        for k in range(1, int(os.environ.get('SA_ROUNDS', '4'))):
            rounds += 1
            more = again(sorted(names), a.repo, a.jobs, seed + 1000 * k, 4096 if k == 1 else None)
            for r in more:
                if r['status'] == 'violation':
                    votes[r['name']] = votes.get(r['name'], -1) + 1
            res += more
    # a violation counts only when an independent random valuation confirms it
    for k in (1, 2):
        left = sorted(n for n in votes if votes[n] <= 0)
        for r in again(left, a.repo, a.jobs, seed + 7777 * k):
            if r['status'] == 'violation':
                votes[r['name']] += 1
    for r in res:
        if r['status'] == 'violation' and votes[r['name']] <= 0:
            r['status'] = 'undecided'
            r['msgs'].append('difference not confirmed by independent valuations')
    extra = []
    for rule in pr.get('rules', ()):
        from sa import rules
        extra += getattr(rules, rule)(P, a.repo)
    devs = obligations(specs, True)
    bad, undec, err, missing, quiet = [], [], [], [], []
    for r in sorted(res + extra, key=lambda r: r['name']):
        st = r['status']
        if st == 'violation':
            # a finding is known only while the code computes exactly the recorded deviation
            k = [f for f in known if f['property'] == a.property and f['rule'] == r['name'] and
                 work((f['deviation'], devs[f['deviation']], a.repo))['status'] == 'ok']
            (quiet if k else bad).append((r, k))
        elif st in ('undecided', 'error', 'vacuous'):
            undec.append(r)
            if st == 'error':
                err.append(r)
        elif st == 'missing':
            missing.append(r)
    ok = [r for r in res + extra if r['status'] == 'ok']
    fns = sorted({f for r in res for f in r['stats'].get('functions', ())})
    stm = sum(r['stats'].get('statements', 0) for r in res)
    print('%s: %s' % (a.property, pr['title']))
    print('analysed %d obligations x %d valuation set(s) over %d functions of %s (%d abstract statement executions)'
          % (len(names), rounds, len(fns), a.repo, stm))
    print('discharged %d, violated %d, undecided %d, lost anchors %d, errors %d'
          % (len(ok), len(bad), len(undec), len(missing), len(err)))
    for r, k in quiet:
        print('KNOWN-FINDING: property=%s %s' % (a.property, k[0]['what']))
    for r in undec:
        print('UNDECIDED %s: %s' % (r['name'], '; '.join(r['msgs'])[-300:].strip()))
    for r in missing:
        print('NO ANSWER %s: %s' % (r['name'], '; '.join(r['msgs'])[-600:]))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, '%s.violation.txt' % a.property)
    if bad:
        with open(replay, 'w') as f:
            for r, _ in bad:
                f.write('rule: %s\nwhere: %s\n' % (r['name'], json.dumps(r['loc'])))
                for m in r['msgs']:
                    f.write('  %s\n' % m)
            f.write('replay: cd %s && ./check --property %s --tier %s\n' % (HERE, a.property, a.tier))
        for r, _ in bad[:12]:
            l = r['loc'] or {}
            print('  %s:%s %s: %s' % (l.get('file', '?'), l.get('line', '?'), l.get('function', r['name']),
                                      (r['msgs'] or ['?'])[0][:300]))
            if l.get('first_divergence'):
                print('      first value not in the reference: %s' % l['first_divergence'])
    if not a.no_evidence:
        cov = dict(
            explanation='static analysis of the current source: each obligation compares the value numbers of everything '
                        'a function returns, stores or writes with those of its specification, on all paths and for symbolic inputs',
            obligations=len(names) + len(extra), discharged=len(ok), undecided=[r['name'] for r in undec],
            valuation_sets=rounds, functions_analysed=len(fns), functions=fns, abstract_statements=stm,
            lanes_compared=sum(r['stats'].get('compared', 0) or 0 for r in res),
            comparison_thresholds=sum(r['stats'].get('thresholds', 0) or 0 for r in res),
            rule=pr.get('rule_text', 'equality of value numbers with the specification of the property'),
            samples=[dict(obligation=r['name'], status=r['status'], functions=r['stats'].get('functions', [])[:8],
                          seconds=round(r['seconds'], 2)) for r in sorted(res, key=lambda r: r['name'])[:60]],
            known_findings=[k[0]['what'] for _, k in quiet],
            violations=[dict(rule=r['name'], where=r['loc'], messages=r['msgs'][:4]) for r, _ in bad],
            checker_cmd='./check --property %s --tier %s' % (a.property, a.tier),
            trusted_base=['CPython ast parser', 'the reference specifications in /verif/spec', 'the transfer functions in /verif/sa',
                          'one-sided error probability of random interpretation, below 2^-31 per comparison and lane'])
        json.dump(dict(property=a.property, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='other', coverage=cov,
                       assumptions=pr.get('assumptions', []) + props.COMMON_ASSUMPTIONS,
                       wall_s=round(time.time() - t0, 2), violations=len(bad)),
                  open(os.path.join(ev, '%s.json' % a.property), 'w'), indent=1)
    if bad:
        print('VIOLATION property=%s replay=%s' % (a.property, replay))
        return 1
    if missing or not ok:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
