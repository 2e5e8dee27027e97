#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current tree.

Proves every obligation of the contracts the property rests on (generated from clang's AST of the current
sources), and runs the execution harness, which validates what the proofs trust and replays failures."""
import sys, os, time, json, subprocess, tempfile, shutil, argparse, hashlib, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()


def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


class Harness:
    """Builds and runs harness/oracle.cpp against the sources of /repo."""
    def __init__(self, variants):
        self.dir = tempfile.mkdtemp(prefix='vh_')
        self.p = {v: subprocess.Popen([os.path.join(HERE, 'harness/build.sh'), REPO, os.path.join(self.dir, v), v],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for v in variants}
        self.state = {}

    def ready(self, v):
        if v not in self.state:
            out = self.p[v].communicate()[0].decode(errors='replace')
            self.state[v] = (self.p[v].returncode == 0, out[-3000:])
        return self.state[v][0]

    def run(self, prop, seed, n, v, budget, first=0):
        """(cases run, failure text or None); failures of the smallest case number first."""
        if not self.ready(v):
            return 0, None
        jobs = 8
        per = max(1, (n + jobs - 1) // jobs)
        exe = os.path.join(self.dir, v, 'oracle')
        ps = []
        for j in range(jobs):
            rep = os.path.join(self.dir, 'rep_%s_%s_%d' % (v, prop, j))
            if os.path.exists(rep):
                os.unlink(rep)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
            ps.append((rep, per, subprocess.Popen(['timeout', str(int(budget)), exe, prop, str(seed), str(first + j * per), str(per), rep],
                                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)))
        done, fail = 0, None
        for rep, per, p in ps:
            o, e = p.communicate()
            if p.returncode == 0:
                done += per
            elif os.path.exists(rep):
                t = open(rep, errors='replace').read()
                if fail is None:
                    fail = 'harness build: %s\n' % v + t + ('\nstderr:\n' + e.decode(errors='replace')[:4000] if e else '')
        return done, fail

    def close(self):
        for p in self.p.values():
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def prove(P, hints, tier, budget):
    """Verifies the contracts of property P. Returns a report."""
    from ccv import cast, spec, model
    from ccv.contract import Registry, verify_function
    from ccv.execu import load_structs
    from ccv.prove import Prover
    from ccv.sym import Unsupported
    import specs
    rep = dict(functions=[], failed=[], unsupported=[], backends={}, solver_s=0.0, obligations=0, discharged=0, trusted=set(), inlined=set(), skipped=[], lemmas=set())
    try:
        prog = cast.Program()
        load_structs(prog)
        model.init()
    except Exception as e:  # the front end cannot read the sources
        rep['unsupported'].append(('front end', '%s: %s' % (type(e).__name__, str(e)[:300])))
        return rep
    reg = Registry([c() for c in specs.CONTRACTS])
    start = time.time()
    Prover.deadline = start + budget
    byid = {c.id: c for c in reg.l}
    todo = [c for c in reg.l if any(c.qual == i or c.id == i or (i.endswith('*') and c.qual.startswith(i[:-1])) for i in P['contracts'])]
    seen = {c.id for c in todo}
    skip = P.get('skip', ())

    def account(fn, case, results, secs, extra):
        bad, late = [], []
        for o, r in results:
            if any(s in o.label for s in skip):
                continue
            rep['obligations'] += 1
            rep['solver_s'] += r[2]
            if r[0] == 'proved':
                rep['discharged'] += 1
                b = r[1].split()[0]
                rep['backends'][b] = rep['backends'].get(b, 0) + 1
            elif 'out of time' in r[3]:
                rep['obligations'] -= 1
                late.append(o.label)
            else:
                bad.append((o, r))
        if late:
            rep['unsupported'].append((fn, '%d obligations not reached in the time budget' % len(late)))
        rep['functions'].append(dict(function=fn, case=str(case) if case is not None else '', obligations=len(results), failed=len(bad), seconds=round(secs, 2), **extra))
        for o, r in bad:
            rep['failed'].append(dict(function=fn, case=str(case) if case is not None else '', obligation=o.label, kind=o.kind, line=o.line, where=o.func, status=r[0], note=r[3], goal=str(o.goal)[:1500]))

    while todo:
        c = todo.pop(0)
        if c.trusted:
            rep['trusted'].add('assumed contract: ' + c.id)
            continue
        if time.time() - start > budget:
            rep['skipped'].append(c.id)
            continue
        fs = prog.find(c.qual, c.nparams, c.typ)
        if len(fs) != 1:
            rep['unsupported'].append((c.id, '%d definitions found' % len(fs)))
            continue
        only = P.get('only', {}).get(c.qual.split('::')[-1]) or P.get('only', {}).get('*')
        for case in c.cases():
            t = time.time()
            if only and not only[0](case):
                continue
            key = c.id + ('' if case is None else '|%s' % (case,))
            try:
                ex = verify_function(prog, reg, c, fs[0], case)
            except Unsupported as e:
                rep['unsupported'].append((c.id, str(e)[:300]))
                continue
            except RecursionError as e:
                rep['unsupported'].append((c.id, 'recursion'))
                continue
            except Exception as e:
                rep['unsupported'].append((c.id, 'front end: %s: %s' % (type(e).__name__, str(e)[:300])))
                if os.environ.get('CCV_DEBUG'):
                    traceback.print_exc()
                continue
            if only:     # postconditions of this function that the property does not rest on are left to their own properties
                ex.obls = [o for o in ex.obls if o.kind != 'post' or re.search(only[1], o.label)]
            pr = Prover(ex)
            h = hints.get(key)
            rs = pr.run(h)
            if h is not None and ex.cands and any(r[0] != 'proved' for _, r in rs) and budget > 200:
                pr = Prover(ex)
                rs = pr.run(None)
            extra = dict(live_invariants=len(pr.live), loops=len(ex.loops))
            vac = pr.vacuous() if tier == 'thorough' else None
            if vac:
                rep['failed'].append(dict(function=c.id, case=str(case or ''), obligation='the contract is not vacuous: ' + vac, kind='vacuity', line=None, where=None, status='refuted', note='', goal=''))
            account(c.id, case, rs, time.time() - t, extra)
            rep['newhints'] = rep.get('newhints', {})
            if ex.cands:
                rep['newhints'][key] = sorted({k.name for k in ex.cands if k.id in pr.live})
            rep['trusted'] |= {str(x) for x in ex.trusted}
            rep['inlined'] |= ex.inlined
            rep['lemmas'] |= getattr(ex, 'lemmas_used', set())
            for u in sorted(ex.used, key=lambda x: x.id):
                if u.id in seen:
                    continue
                seen.add(u.id)
                if tier == 'quick' and u.qual in P.get('rely', ()):
                    rep['trusted'].add('contract proved by the checks of C14 and C15: ' + u.id)
                else:
                    todo.append(u)
    from ccv.contract import verify_theorem
    for T_ in specs.THEOREMS:
        if T_.__name__ not in P.get('theorems', ()):
            continue
        c = T_()
        for case in c.cases():
            t = time.time()
            try:
                ex = verify_theorem(prog, reg, c, case)
            except Exception as e:
                rep['unsupported'].append((c.qual, 'front end: %s: %s' % (type(e).__name__, str(e)[:300])))
                continue
            account(c.qual, case, Prover(ex).run(), time.time() - t, {})
            rep['lemmas'] |= getattr(ex, 'lemmas_used', set())
    from ccv import lemma
    for nm in lemma.closure(list(P.get('lemmas', ())) + sorted(rep['lemmas'])):
        t = time.time()
        rs = lemma.check(nm)
        account('lemma ' + nm, None, rs, time.time() - t, {})
    return rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('--hints', action='store_true', help='record the surviving loop invariants in specs/hints.json')
    a = ap.parse_args()
    from specs.properties import PROPS
    pid, P = a.property, PROPS[a.property]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    thorough = a.tier == 'thorough'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    variants = P.get('variants', ['plain'])
    H = None if a.no_harness else Harness(variants)
    hp = os.path.join(HERE, 'specs/hints.json')
    hints = json.load(open(hp)) if os.path.exists(hp) and not a.hints else {}
    empty = dict(functions=[], failed=[], unsupported=[], backends={}, solver_s=0.0, obligations=0, discharged=0, trusted=set(), inlined=set(), skipped=[])
    cases, failtext, hnote = 0, None, ''
    if H is not None:
        n = P.get('cases', 2000) * (25 if thorough else 1)
        left = 900 if thorough else 120
        for v in variants:
            c, f = H.run(pid, seed, n if v == 'plain' else max(200, n // 8), v, left)
            cases += c
            failtext = failtext or f
    # a failing input is known already: the proofs only have to name the obligation
    rep = prove(P, hints, a.tier, 120 if failtext else 3000 if thorough else 450) if P.get('contracts') or P.get('lemmas') else empty
    if a.hints:
        old = json.load(open(hp)) if os.path.exists(hp) else {}
        old.update(rep.get('newhints', {}))
        json.dump(old, open(hp, 'w'), indent=0, sort_keys=True)
    if H is not None:
        if rep['failed'] and failtext is None and H.ready(variants[0]):
            end = time.time() + (600 if thorough else 90)
            k = 1
            while time.time() < end and failtext is None:   # search for a failing input
                c, failtext = H.run(pid, seed + 1000 * k, P.get('cases', 2000) * 8, variants[(k - 1) % len(variants)], 60)
                cases += c
                k += 1
        for v in variants:
            if not H.ready(v):
                hnote += 'harness build (%s) failed: %s; ' % (v, H.state[v][1][-400:])
        for q, i, text in known():
            if q == pid:
                c, f = H.run(i, seed, 8, variants[0], 60)
                if f is not None:
                    print('KNOWN-FINDING: property=%s %s' % (pid, text))
        H.close()
    viol = failtext is not None or bool(rep['failed'])
    replay = os.path.join(HERE, 'evidence', '%s.replay.txt' % pid)
    if viol:
        with open(replay, 'w') as f:
            if failtext:
                f.write('A failing input of the real code (harness/oracle.cpp; build: harness/build.sh %s DIR; run: DIR/oracle <property> <seed> <case> 1 OUT)\n\n' % REPO)
                f.write(failtext + '\n\n')
            for x in rep['failed']:
                f.write('FAILED OBLIGATION in %s %s: %s [%s] line %s of %s: %s\n  goal: %s\n  verifier: %s\n\n' % (
                    x['function'], x['case'], x['obligation'], x['kind'], x['line'], x['where'], x['status'], x['goal'], x['note']))
    else:
        if os.path.exists(replay):
            os.unlink(replay)
    nb = rep['unsupported'] + [(c, 'time budget') for c in rep['skipped']]
    assumptions = list(P.get('assumes', ())) + BASE_ASSUMPTIONS
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=P['level'], wall_s=round(time.time() - T0, 1), violations=1 if viol else 0, assumptions=assumptions,
              coverage=dict(obligations=rep['obligations'], discharged=rep['discharged'], checker_cmd='python3-vt check.py %s --tier %s' % (pid, a.tier),
                            trusted_base=sorted(rep['trusted']) + TRUSTED, functions=rep['functions'], back_ends=rep['backends'],
                            solver_seconds=round(rep['solver_s'], 1), executed_in_place=sorted(rep['inlined']),
                            bounded_stand_ins=list(P.get('bounded', ())) + ['%s: outside the verifier on this tree (%s)' % x for x in nb],
                            evaluations=cases, distinct_nontrivial=cases,
                            rule='harness cases: one pseudo-random robot, history or element per (property, seed, case number); every case makes at least one comparison with the independent oracle, and distinct case numbers give distinct generator states',
                            samples=['harness/oracle %s %d 0 %d' % (pid, seed, cases)],
                            explanation=P.get('explanation', ''), harness_note=hnote, failed=rep['failed'][:20]))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions, %d obligations, %d discharged, %d failed, %d outside the verifier, %d harness cases, %.0f s' % (
        pid, len(rep['functions']), rep['obligations'], rep['discharged'], len(rep['failed']), len(nb), cases, time.time() - T0))
    for x in rep['failed'][:10]:
        print('  failed: %s %s: %s [%s] line %s (%s)' % (x['function'], x['case'], x['obligation'], x['kind'], x['line'], x['status']))
    for x in nb:
        print('  bounded only: %s: %s' % x)
    if hnote:
        print('  ' + hnote[:500])
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if failtext else ' no-failing-input-found'))
        return 1
    return 0


BASE_ASSUMPTIONS = [
    'machine arithmetic on double is treated as real arithmetic (rounding, overflow and NaN are outside the proofs; the harness compares within tolerances)',
    'size_t and int arithmetic is treated as integer arithmetic; subtraction on size_t carries a non-negativity obligation',
    'memory allocation succeeds; container sizes stay below 2^63',
]
TRUSTED = ['clang 18 front end (AST of the current sources)', 'ccv symbolic executor and library models (ccv/execu.py, ccv/lib.py)', 'z3 4.8.12, cvc5 1.1.2, ccv/ring.py polynomial normaliser',
           'properties of sin, cos, sqrt, atan2, asin and remainder stated in ccv/spec.py']

if __name__ == '__main__':
    sys.exit(main())
