#!/usr/bin/env python3
"""check.py <property> [thorough]: decide one property on the current tree of /repo.

Engine A: the functions the property depends on are extracted from /repo, translated, and Verus discharges their contracts.
Engine B: a bounded replay harness runs the real templates; it supplies the failing input for what engine A rejects, and
stands in (labelled bounded) for functions that engine A could not decide."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from lib import prove, repair
from lib.config import PROPS, CXX, ASSUMPTIONS
REPO = prove.REPO

def squeeze(s):
    return re.sub(r'\s+', '', s)

def tags_of(fn, item):
    """properties a failed obligation of fn belongs to: those of the postcondition clause if it is tagged"""
    if 'postcondition' in item['message']:
        for line, text, label in item['at']:
            if label and 'failed this postcondition' in label:
                t = squeeze(text).rstrip(',')
                for e, props in fn.ensures:
                    q = squeeze(e)
                    if props and (q == t or q.startswith(t)):
                        return set(props.split()) if isinstance(props, str) else set(props)
    return fn.props

def engine_a(fam, prop, work, extra=()):
    try:
        return prove.check(fam, work, extra)
    except Exception as e:
        r = prove.Result()
        r.family = fam; r.crash = '%s: %s' % (type(e).__name__, e)
        return r

def build_b(name, work):
    src = os.path.join(HERE, 'bounded', name + '.cpp')
    exe = os.path.join(work, 'b_' + name)
    t0 = time.time()
    cmd = CXX + ['-I', os.path.join(HERE, 'bounded'), '-I', REPO, src, '-o', exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    # the harness without what code may require more of: algorithms on arrays only
    if r.returncode: r = subprocess.run(cmd + ['-DB_REDUCED'], capture_output=True, text=True)
    return (exe if r.returncode == 0 else None), r.stderr[-3000:], time.time() - t0

def engine_b(name, prop, depth, seed, work, limit):
    exe, err, tb = build_b(name, work)
    res = {'harness': 'bounded/%s.cpp' % name, 'compile_s': round(tb, 1), 'fail': None, 'known': [], 'samples': [], 'cases': 0, 'nontrivial': 0}
    if exe is None:
        res['error'] = 'does not compile: ' + err
        return res
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=32:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
    t0 = time.time()
    try:
        r = subprocess.run([exe, prop, str(depth), str(seed)], capture_output=True, text=True, errors='replace', env=env, timeout=limit)
        out, err2, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        res['error'] = 'time limit of %d s' % limit
        out, err2, rc = (e.stdout or b'').decode(errors='replace'), '', None
    res['run_s'] = round(time.time() - t0, 1)
    for l in out.splitlines():
        if l.startswith('BFAIL'): res['fail'] = l
        elif l.startswith('BKNOWN '): res['known'].append(l[7:].strip())
        elif l.startswith('SAMPLE '): res['samples'].append(l[7:])
        elif l.startswith('BOK'):
            m = re.search(r'cases=(\d+) nontrivial=(\d+)', l)
            res['cases'], res['nontrivial'] = int(m.group(1)), int(m.group(2))
    res['stderr'] = err2[-4000:]
    if rc not in (0, None) and not res['fail']:
        res['fail'] = 'BFAIL property=%s kind=exit: the harness ended with status %s' % (prop, rc)
    if res['fail']: res['rerun'] = ' '.join([exe, prop, str(depth), str(seed)])
    return res

def findings(prop):
    """open known findings of the property: key -> text"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out

def main():
    prop = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    fams, harness = PROPS[prop]
    work = os.path.join(HERE, 'build', '%s-%s' % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    depth = 2 if tier == 'thorough' else 1
    ex = cf.ThreadPoolExecutor(8)
    fb = [ex.submit(engine_b, h, prop, depth, seed, work, 3000 if depth > 1 else 500) for h in harness]
    fa = [ex.submit(engine_a, f, prop, os.path.join(work, f)) for f in fams]
    ras = [f.result() for f in fa]
    # vacuity and a second solver run only in the thorough tier
    vac = []
    if tier == 'thorough':
        vac = [ex.submit(prove.vacuity, f, os.path.join(work, f + '-vacuity')) for f in fams]
        again = [ex.submit(engine_a, f, prop, os.path.join(work, f + '-seed'), ['--smt-option', 'smt.random_seed=%d' % (seed + 6)]) for f in fams]
    rbs = [f.result() for f in fb]
    # a proof that fails without a failing input: perhaps only the hints do not fit a rewritten loop
    adapted = {}
    if not any(rb['fail'] for rb in rbs):
        for r in ras:
            if getattr(r, 'crash', None) or getattr(r, 'js', None) is None: continue
            todo = [l for l, its in r.failed.items() if l in r.fns and prop in r.fns[l].props and any(prop in tags_of(r.fns[l], it) for it in its)]
            todo += [l for l in r.undecided if l in r.fns and prop in r.fns[l].props]
            if todo:
                for l, how in repair.repair(r, todo, os.path.join(work, r.family), min(180, 780 - (time.time() - t0))).items():
                    adapted['%s: %s' % (r.family, l)] = how
    # ---- engine A: what of it concerns this property
    failed, undecided, obligations, discharged, funcs, trusted, cmds, notes = [], {}, 0, 0, [], [], [], []
    solver = 0.0
    for r in ras:
        if getattr(r, 'crash', None):
            undecided['%s (whole family)' % r.family] = r.crash
            mod = __import__('contracts.' + r.family, fromlist=['x'])
            obligations += sum(len([1 for e, t in f.ensures if t is None or prop in t]) + 1 for f in mod.FNS if prop in f.props)
            continue
        cmds.append(r.cmd)
        try: solver += r.js['times-ms']['total'] / 1000.0
        except Exception: pass
        texts = r.text.split('\n')
        mine = 0
        for lab, fn in r.fns.items():
            if prop not in fn.props: continue
            seg = next(((a, b) for a, b, l in r.lines if l == lab), None)
            body = '\n'.join(texts[seg[0] - 1:seg[1]]) if seg else ''
            n = len([1 for e, t in fn.ensures if t is None or prop in t]) + body.count('  decreases ') + len(re.findall(r'\bassert\b', body)) \
                + sum(len([x for x in lp.get('inv', [])]) if isinstance(lp, dict) else 0 for lp in fn.loops) + 1
            obligations += n
            mine += 1
            bad = [it for it in r.failed.get(lab, []) if prop in tags_of(fn, it)]
            if lab in r.undecided:
                undecided[lab] = r.undecided[lab]
            elif bad:
                failed += [(r.family, lab, fn, it) for it in bad]
                discharged += max(0, n - len(bad))
            elif r.js is None or (r.tool_error and not r.verified and not r.failed):
                undecided[lab] = 'verifier gave no result'
            else:
                discharged += n
            funcs.append(fn.cxx + ('(%s)' % ', '.join(fn.ps) if fn.ps is not None else ''))
        # lemmas of the prelude
        pre = '\n'.join(texts[:r.lines[0][0] - 1]) if r.lines else ''
        for m in re.finditer(r'#\[verifier::external_body\]\s*\n\s*pub (?:broadcast )?(?:proof )?(fn|struct) (\w+)', r.text):
            trusted.append(r.family + ': ' + m.group(2))
        for m in re.finditer(r'\b(assume\(|admit\()', r.text):
            trusted.append(r.family + ': ' + m.group(1))
        nl = len(re.findall(r'(?<!external_body\]\n)pub (?:broadcast )?proof fn', pre)) - len(re.findall(r'external_body\]\s*\n\s*pub (?:broadcast )?proof fn', pre))
        obligations += max(nl, 0)
        bad_pre = r.tool_error and not r.success
        discharged += max(nl, 0) if not bad_pre else 0
        if r.tool_error: notes.append(r.family + ': ' + r.tool_error[:500])
    # ---- verdict
    rdir = os.path.join(HERE, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, '%s-%s.json' % (prop, tier))
    if os.path.exists(replay): os.remove(replay)
    known = findings(prop)
    seen = sorted({k for rb in rbs for k in rb['known']})
    unlisted = [k for k in seen if k.split()[0] not in known]
    bfails = [rb for rb in rbs if rb['fail']]
    bfail = bfails[0]['fail'] if bfails else None
    # a harness that gave no answer stands in for nothing
    silent = [rb for rb in rbs if rb.get('error')]
    violations = 0
    rec = {'property': prop, 'tier': tier}
    if failed:
        rec['failed_obligations'] = [{'family': f, 'function': fn.cxx, 'label': lab, 'obligation': it['message'],
                                      'where': [{'line': a[0], 'text': a[1], 'label': a[2]} for a in it['at']]} for f, lab, fn, it in failed]
        rec['verifier_input'] = [r.path for r in ras if hasattr(r, 'path')]
        rec['verifier_output'] = '\n'.join(r.raw[-6000:] for r in ras if hasattr(r, 'raw'))
    if bfail:
        rec['failing_input'] = bfail
        rec['sanitizer'] = bfails[0].get('stderr')
        rec['rerun'] = bfails[0].get('rerun')
        rec['other_failing_inputs'] = [rb['fail'] for rb in bfails[1:]]
    if unlisted: rec['unlisted_finding'] = unlisted
    if failed or bfail or unlisted:
        violations = len(failed) + len(bfails) + len(unlisted)
        json.dump(rec, open(replay, 'w'), indent=1)
    for k in seen:
        if k.split()[0] in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[k.split()[0]]))
    # ---- thorough extras
    extra = {}
    if tier == 'thorough':
        vs = []
        for v in vac:
            try: vs.append(v.result())
            except Exception as e: vs.append({'error': str(e)})
        extra['vacuity'] = vs
        extra['second_seed'] = [{'family': a.result().family, 'verified': getattr(a.result(), 'verified', None), 'errors': getattr(a.result(), 'errors', None)} for a in again]
        for v in vs:
            for lab in v.get('vacuous', []):
                notes.append('VACUOUS contract: ' + lab)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if fams else 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': violations,
          'coverage': {
              'obligations': obligations, 'discharged': discharged,
              'checker_cmd': ' ; '.join(cmds) or 'verus (not run)',
              'trusted_base': ['verus 0.2026.09.13 and its z3', 'clang 18 AST dump', 'lib/xlate.py (extraction and translation)'] + sorted(set(trusted)),
              'functions_under_contract': sorted(funcs),
              'undecided_functions': undecided,
              'adapted_hints': adapted,
              'failed_functions': sorted({fn.cxx for _, _, fn, _ in failed}),
              'verus_items_verified': {r.family: getattr(r, 'verified', None) for r in ras},
              'verus_wall_s': {r.family: round(getattr(r, 'wall', 0), 1) for r in ras},
              'solver_s': round(solver, 1),
              'bounded': [{
                  'label': 'bounded, not counted as proved: small-scope enumeration and seeded random runs of the real templates against a reference model',
                  'harness': rb['harness'], 'evaluations': rb['cases'], 'distinct_nontrivial': rb['nontrivial'], 'samples': rb['samples'],
                  'compile_s': rb.get('compile_s'), 'run_s': rb.get('run_s'), 'error': rb.get('error'), 'depth': depth} for rb in rbs],
              'evaluations': sum(rb['cases'] for rb in rbs), 'distinct_nontrivial': sum(rb['nontrivial'] for rb in rbs),
              'rule': 'harnesses enumerate small operation histories and draw seeded random ones, each compared with a reference model after every operation; non-trivial: the history changes a non-empty object',
              'samples': [x for rb in rbs for x in rb['samples']][:12],
              'notes': notes, **extra},
          'assumptions': ASSUMPTIONS + [a for f in fams for a in getattr(sys.modules.get('contracts.' + f), 'ASSUMPTIONS', [])]}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d functions under contract, %d/%d obligations discharged, %d undecided functions; bounded: %s cases%s; %.0f s' % (
        prop, tier, len(funcs), discharged, obligations, len(undecided), sum(rb['cases'] for rb in rbs),
        ''.join(' (%s: %s)' % (rb['harness'], rb['error'][:200]) for rb in silent), time.time() - t0))
    for u, why in undecided.items(): print('undecided (bounded stand-in only): %s: %s' % (u, why[:200]))
    for n in notes: print('note: ' + n[:300])
    for l, how in adapted.items(): print('proved with adapted hints: %s (%s)' % (l, how))
    for _, lab, fn, it in failed:
        print('failed obligation: %s: %s: %s' % (fn.cxx, it['message'], '; '.join(a[1] for a in it['at'])[:300]))
    if bfail: print(bfail[:1500])
    if violations:
        if not os.environ.get('KEEP_BUILD'): pass
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if bfail or unlisted else ' no-failing-input-found'))
        return 1
    if undecided and silent:
        print('no answer: functions are undecided and a bounded stand-in did not run')
        return 2
    if not os.environ.get('KEEP_BUILD'):
        shutil.rmtree(work, ignore_errors=True)
    return 0

if __name__ == '__main__':
    sys.exit(main())
