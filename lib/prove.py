"""Engine A: extract the functions under contract from the current tree, translate them, and let Verus discharge the obligations."""
import concurrent.futures as cf, copy, difflib, hashlib, importlib, json, os, re, signal, subprocess, sys, tempfile, time, traceback
from . import ast as A
from .ast import ExtractError, tyof, norm
from .xlate import Xlate

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TTL_REPO', '/repo')
LOCKDIR = os.path.join(HERE, 'contracts', 'lock')

def normsig(t):
    t = norm(t).replace('ttl::', '')
    return re.sub(r'\s+', '', re.sub(r'\b(\d+)(UL|ul|L|U)\b', r'\1', t))

def typedefs(tu):
    if not hasattr(tu, '_td'):
        tu._td = {}
        for d in tu.by_id.values():
            if d.get('kind') in ('TypedefDecl', 'TypeAliasDecl'):
                p = tu.parent.get(d['id'])
                if p is not None:
                    tu._td[(tu.qname.get(p['id']), d.get('name'))] = tyof(d)
    return tu._td

def canon_type(tu, t, owner):
    td = typedefs(tu)
    for _ in range(5):
        n = re.sub(r'(?<![\w:])(\w+)(?!\w|::|<)', lambda m: td.get((owner, m.group(1)), m.group(1)), t)
        if n == t: break
        t = n
    return t

def find_fn(tu, fn):
    """the definition of the instantiated C++ function under contract"""
    cand = []
    for f in tu.funcs:
        if not tu.has_body(f):
            continue
        nm = f.get('name')
        o = tu.owner(f)
        full = (o + '::' if o else f.get('_ns', '')) + (nm or '')
        if o and f['kind'] == 'CXXConstructorDecl':
            full = o + '::ctor'
        if o and f['kind'] == 'CXXDestructorDecl':
            full = o + '::dtor'
        if full.replace(' ', '') != fn.cxx.replace(' ', ''):
            continue
        ps = tu.params(f)
        if fn.ps is not None:
            if len(ps) != len(fn.ps):
                continue
            ok = True
            for p, want in zip(ps, fn.ps):
                q = {normsig(tyof(p)), normsig(p['type']['qualType']), normsig(canon_type(tu, tyof(p), o))}
                if not any(re.fullmatch(w, x) for x in q for w in [want[3:] if want.startswith('re:') else re.escape(normsig(want))]):
                    ok = False
            if not ok:
                continue
        # constness of methods distinguishes overloads
        isconst = bool(re.search(r'\)\s*const', f['type']['qualType']))
        if getattr(fn, 'const', None) is not None and fn.const != isconst:
            continue
        if f not in cand:
            cand.append(f)
    ids = {c['id'] for c in cand}
    if len(ids) == 0:
        raise ExtractError('%s: %s(%s) not found' % (fn.label, fn.cxx, fn.ps))
    if len(ids) > 1:
        # out-of-line definition and its in-class declaration share a body; otherwise ambiguous
        raise ExtractError('%s: ambiguous (%s)' % (fn.label, [c['type']['qualType'] for c in cand]))
    return cand[0]

def canon(tu, f):
    out = {f['id']}
    i = f
    while i.get('previousDecl'):
        out.add(i['previousDecl'])
        i = tu.by_id.get(i['previousDecl'], {})
    return out

def align(old, new):
    """map the names the contract was written against (old) to the current names"""
    on = [n for n, _ in old]; nn = [n for n, _ in new]
    if all(n in nn for n in on):
        return {}
    ren = {}
    sm = difflib.SequenceMatcher(None, on, nn, autojunk=False)
    for op, i1, i2, j1, j2 in sm.get_opcodes():
        if op == 'replace':
            a = [x for x in old[i1:i2] if x[0] not in nn]
            b = [x for x in new[j1:j2] if x[0] not in on]
            if [t for _, t in a] == [t for _, t in b]:
                for (x, _), (y, _) in zip(a, b):
                    ren[x] = y
            else:
                # match by type, in order
                b = list(b)
                for x, t in a:
                    for k, (y, t2) in enumerate(b):
                        if t2 == t:
                            ren[x] = y; b.pop(k); break
    out = dict(ren)
    for x, y in ren.items():
        out[x + '_in'] = y + '_in'
    return out

class Result:
    pass

def mentions(fn, names, loops=True):
    txt = json.dumps([fn.requires, [e for e, _ in fn.ensures], fn.loops if loops else [], fn.entry, fn.exit, list(fn.at.values()), fn.decreases])
    return {n for n in names if re.search(r'\b%s(_in)?\b' % re.escape(n), txt)}

def external(txt):
    """the contract of a function without its body: its callers are checked against it, the function itself is undecided"""
    ls = txt.split('\n')
    i = ls.index('{')
    return '\n'.join(['#[verifier::external_body]'] + ls[:i] + ['{', '  unimplemented!()', '}'])

def assemble(res):
    """the Verus text: functions that are undecided keep only their contract; without one, their callers are undecided as well"""
    mod = res.mod
    texts = {}
    for l in res.order:
        if l not in res.undecided: texts[l] = res.pieces[l]
        elif l in res.stub and l not in res.stubbed: texts[l] = res.stub[l]
    changed = True
    while changed:
        changed = False
        gone = [u for u in res.undecided if u not in texts]
        if not gone: break
        rx = re.compile(r'\b(%s)\(' % '|'.join(re.escape(u) for u in gone))
        for lab in list(texts):
            if lab in res.undecided: continue
            m = rx.search(texts[lab].split('\n{\n', 1)[1])
            if m:
                res.undecided[lab] = 'calls undecided ' + m.group(1)
                if lab in res.stub and lab not in res.stubbed: texts[lab] = res.stub[lab]
                else: del texts[lab]
                changed = True
                break
    res.ok = [l for l in res.order if l not in res.undecided]
    out = ['use vstd::prelude::*;', '#[allow(unused_imports)] use vstd::seq::*;', '#[allow(unused_imports)] use vstd::map::*;',
           'verus! {', 'fn main() {}']
    for p in mod.PRELUDE:
        out.append(open(os.path.join(HERE, 'contracts', p)).read())
    res.lines = []      # (first line, last line, label)
    text = '\n'.join(out)
    ln = text.count('\n') + 2
    parts = [text]
    for lab in res.order:
        if lab not in texts: continue
        t = texts[lab]
        n = t.count('\n') + 1
        res.lines.append((ln, ln + n - 1, lab))
        parts.append(t)
        ln += n
    parts.append('}')
    res.text = '\n'.join(parts) + '\n'

def callees(txt, labels):
    """the functions under contract that the translated text calls"""
    b = txt.split('\n{\n', 1)[-1]
    return sorted({m for m in re.findall(r'(?<![\w.])(\w+)\(h\b', b) if m in labels})

def sha(t):
    return hashlib.sha256(re.sub(r'//[^\n]*', '', t).encode()).hexdigest()[:16]

def generate(famname, update_lock=False, only=None, reach=False):
    mod = importlib.import_module('contracts.' + famname)
    t0 = time.time()
    lockf = os.path.join(LOCKDIR, famname + '.json')
    lock = json.load(open(lockf)) if os.path.exists(lockf) else {}
    root = A.load(mod.TU, REPO)
    tu = A.TU(root)
    res = Result()
    res.family = famname
    res.undecided = {}      # label -> reason
    res.fns = {f.label: f for f in mod.FNS}
    res.ok = []
    contracts = {}
    defs = {}
    for fn in mod.FNS:
        try:
            d = find_fn(tu, fn)
            defs[fn.label] = d
            for i in canon(tu, d):
                contracts[i] = fn
        except ExtractError as e:
            res.undecided[fn.label] = str(e)
    xl = Xlate(tu, mod.FAM, contracts)
    pieces = []
    res.sigs = {}
    newlock = {}
    res.vars, res.orig, res.ren, res.changed = {}, {}, {}, []
    res.lock, res.xl, res.defs = lock, xl, defs
    stub = {}               # label -> contract without body, for callers of a function that is undecided
    for fn in mod.FNS:
        if fn.label not in defs:
            continue
        d = defs[fn.label]
        fn.rename = {}
        xl.hdr = None
        old = lock.get(fn.label)
        try:
            # a function under contract keeps its own parameter contract: make sure recursion uses the contract
            txt = xl.function(fn, d)
            cur = [list(x) for x in xl.params + xl.locals]
            nloops = xl.nloops
            res.vars[fn.label] = [tuple(x) for x in cur]
            if old is not None and not update_lock:
                ren = align(old['names'], cur)
                res.ren[fn.label] = ren
                if ren:
                    txt = xl.function(fn, d, ren)
                missing = mentions(fn, [n for n, _ in old['names']], bool(nloops)) - set(n for n, _ in cur) - set(ren)
                if missing:
                    raise ExtractError('annotations do not attach: %s' % sorted(missing))
            newlock[fn.label] = {'names': cur, 'loops': nloops, 'text': sha(txt), 'calls': callees(txt, res.fns)}
            if old is None or old.get('text') != sha(txt): res.changed.append(fn.label)
            res.sigs[fn.label] = True
            res.orig[fn.label] = txt
            pieces.append((fn.label, txt))
            res.ok.append(fn.label)
        except Exception as e:
            if isinstance(e, ExtractError):
                res.undecided[fn.label] = str(e)
            else:
                if os.environ.get('VDEBUG'):
                    traceback.print_exc()
                res.undecided[fn.label] = 'translator: %s: %s' % (type(e).__name__, e)
            if xl.hdr and old is not None:
                try:
                    pn = [n for n, _ in xl.params]
                    op = old['names'][:len(pn)]
                    if [t for _, t in op] == [t for _, t in xl.params]:
                        xl.rename = {x: y for (x, _), y in zip(op, pn) if x != y}
                        stub[fn.label] = external('\n'.join(xl.header()) + '\n{\n}')
                        pieces.append((fn.label, None))
                except Exception:
                    pass
    for lab, t in pieces:
        if t is not None: stub[lab] = external(t)
    res.pieces, res.stub, res.stubbed = dict(pieces), stub, set()
    res.order = [l for l, _ in pieces]
    res.mod = mod
    assemble(res)
    res.gen_s = time.time() - t0
    if update_lock:
        os.makedirs(LOCKDIR, exist_ok=True)
        json.dump(newlock, open(lockf, 'w'), indent=0, sort_keys=True)
    return res

def verus(path, extra=(), timeout=600, many=20):
    env = dict(os.environ)
    cmd = ['verus', path, '--crate-type=bin', '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', str(many)] + list(extra)
    t0 = time.time()
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=os.path.dirname(path), start_new_session=True)
    try:
        out, err = pr.communicate(timeout=max(5, timeout))
    except subprocess.TimeoutExpired:
        try: os.killpg(pr.pid, signal.SIGKILL)        # the solver too
        except OSError: pass
        pr.communicate()
        return None, [], 'timeout', time.time() - t0, cmd
    errs = []
    for l in err.splitlines():
        if l.startswith('{'):
            try: errs.append(json.loads(l))
            except ValueError: pass
    try:
        js = json.loads(out)
    except ValueError:
        js = None
    return js, errs, err, time.time() - t0, cmd

def classify(res, errs):
    lines = res.text.split('\n')
    bad = {}
    def owner(l):
        for a, b, lab in res.lines:
            if a <= l <= b: return lab
        return None
    for e in errs:
        if e.get('level') != 'error' or e.get('message', '').startswith('aborting due'):
            continue
        spans = [s for s in e.get('spans', [])]
        prim = [s for s in spans if s.get('is_primary')] or spans
        msg = e['message']
        if not spans:
            if 'verification results' in msg: continue
            res.tool_error = (res.tool_error or '') + msg + '\n'
            continue
        owners = [owner(s['line_start']) for s in prim] + [owner(s['line_start']) for s in spans]
        # for a failed precondition the call site is in the body, the failed clause in the callee
        own = None
        for s in spans:
            o = owner(s['line_start'])
            if o and ('precondition' not in msg or s.get('is_primary')):
                own = o; break
        own = own or next((o for o in owners if o), None)
        item = {'message': msg, 'at': [(s['line_start'], lines[s['line_start'] - 1].strip()[:200], s.get('label')) for s in spans]}
        soft = re.search(r'rlimit|Resource limit|timed? ?out', msg)
        semantic = re.search(r'not satisfied|assertion failed|invariant|decreases|overflow|underflow|possible|recommendation|termination|may', msg)
        if own is None:
            res.tool_error = (res.tool_error or '') + msg + str(item['at']) + '\n'
        elif soft:
            res.undecided[own] = 'verifier: ' + msg
        elif not semantic or re.search(r'not supported|does not yet support|mutabl|borrow|must have a decreases clause', msg):
            bad[own] = 'verifier: ' + msg
            if os.environ.get('VDEBUG'): print('REJECTED', own, msg, item['at'])
        else:
            res.failed.setdefault(own, []).append(item)
    return bad

def alone(res, work, extra, end, labs):
    """the verifier was stuck on the whole family: each function alone; returns (failed, undecided) for those that do not pass.
    The lemmas of the prelude and the functions that do pass are confirmed together afterwards, with the others as contracts"""
    def one(lab):
        r = copy.copy(res)
        r.undecided = dict(res.undecided); r.undecided.update({l: 'not examined' for l in res.order if l != lab})
        r.pieces = {lab: res.pieces[lab]}
        r.failed = {}; r.tool_error = None
        assemble(r)
        path = os.path.join(work, 'alone_%s.rs' % lab)
        open(path, 'w').write(r.text)
        for many in (20, 2):
            if time.time() > end: break
            js, errs, raw, wall, cmd = verus(path, list(getattr(res.mod, 'VERUS', [])) + list(extra) + ['--verify-root', '--verify-function', lab], min(60, end - time.time()), many)
            if js is None: continue
            classify(r, errs)
            if r.undecided.get(lab): return lab, None, r.undecided[lab]
            if r.failed.get(lab): return lab, r.failed[lab], None
            ok = js.get('verification-results', {}).get('errors') == 0
            return lab, None, None if ok else 'verifier gave no result for this function alone'
        return lab, None, 'verifier gave no result for this function in time'
    with cf.ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(one, labs))
    return {l: f for l, f, u in rs if f}, {l: u for l, f, u in rs if u}

def again(res, aside):
    """assemble with the functions of aside as contracts"""
    res.undecided.update({l: 'failed alone' for l in aside})
    assemble(res)
    for l in aside: res.undecided.pop(l, None)

def check(famname, work, extra=(), update_lock=False, timeout=180, total=620):
    """returns a Result with .failed (label -> list of (message, line, text)), .undecided, .verified"""
    res = generate(famname, update_lock)
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, famname + '.rs')
    res.path = path
    res.wall = 0
    end = time.time() + total
    aside, stuck = {}, 0
    for attempt in range(12):
        open(path, 'w').write(res.text)
        res.failed = {}
        res.tool_error = None
        js, errs, raw, wall, cmd = verus(path, list(getattr(res.mod, 'VERUS', [])) + list(extra), max(5, min(timeout, end - time.time())))
        res.wall += wall; res.cmd = ' '.join(cmd); res.js = js; res.raw = raw
        if js is None and stuck < 2 and raw == 'timeout' and time.time() < end - 60:
            # first the functions whose text is not the annotated tree's, then all
            labs = [l for l in res.order if l not in res.undecided and l not in aside and (stuck or l in res.changed)]
            stuck = 1 if stuck == 0 and labs else 2
            bad, und = alone(res, work, extra, end - 90, labs or [l for l in res.order if l not in res.undecided])
            res.wall = time.time() - end + total
            aside.update(bad)
            res.undecided.update(und)
            again(res, aside)
            continue
        bad = classify(res, errs)
        # a function the verifier rejects as text (a name, a type, a construct): leave its contract and run again
        if not bad: break
        for lab, why in bad.items():
            if lab in res.undecided: res.stubbed.add(lab)      # the contract itself is rejected
            res.undecided[lab] = why
        again(res, aside)
    res.failed.update(aside)
    if js is None:
        res.tool_error = (res.tool_error or '') + 'no result from verus: ' + raw[-1500:]
    res.verified = (js or {}).get('verification-results', {}).get('verified', 0)
    res.errors = (js or {}).get('verification-results', {}).get('errors', 0)
    res.success = (js or {}).get('verification-results', {}).get('success', False)
    for lab in list(res.failed):
        if lab in res.undecided and res.undecided[lab].startswith('verifier'):
            del res.failed[lab]     # the verifier gave up somewhere in this function
    return res

def vacuity(famname, work):
    """every contract must be satisfiable and every function must be able to return: asserting false has to fail"""
    res = generate(famname)
    os.makedirs(work, exist_ok=True)
    lines = res.text.split('\n')
    out = {'family': famname, 'functions': 0, 'vacuous': []}
    for kind in ('entry', 'return'):
        new = []
        own = []
        for i, l in enumerate(lines, 1):
            seg = next((lab for a, b, lab in res.lines if a <= i <= b), None)
            last = any(b == i for a, b, _ in res.lines)
            if seg and kind == 'return' and re.match(r'\s*(return\b|ret$)', l) or seg and kind == 'return' and last and l == '}' and not re.match(r'\s*(return\b|ret$|unreached\(\))', lines[i - 2]):
                new.append('proof { assert(false); }'); own.append(seg)
            new.append(l); own.append(seg)
            if seg and kind == 'entry' and (l == '{' and not lines[i].strip().startswith('hide(') or l.strip().startswith('hide(') and not lines[i].strip().startswith('hide(')):
                new.append('proof { assert(false); }'); own.append(seg)
        path = os.path.join(work, '%s_%s.rs' % (famname, kind))
        open(path, 'w').write('\n'.join(new))
        js, errs, raw, wall, cmd = verus(path, list(getattr(res.mod, 'VERUS', [])), 3000)
        hit = set()
        if js is None or js.get('verification-results', {}).get('encountered-vir-error'):
            raise RuntimeError('vacuity check of %s: %s' % (famname, raw[:300]))
        for e in errs:
            for s in e.get('spans', []):
                if s['line_start'] <= len(own) and own[s['line_start'] - 1]: hit.add(own[s['line_start'] - 1])
        labs = {lab for _, _, lab in res.lines}
        out['functions'] = len(labs)
        out['vacuous'] += ['%s (%s)' % (l, kind) for l in sorted(labs - hit) if not res.fns[l].noreach]
    return out

if __name__ == '__main__':
    fam = sys.argv[1]
    upd = '--lock' in sys.argv
    extra = [a for a in sys.argv[2:] if a != '--lock']
    r = check(fam, os.environ.get('VWORK', '/tmp/w'), extra, upd)
    print('gen %.1fs verus %.1fs verified %s errors %s' % (r.gen_s, r.wall, r.verified, r.errors))
    for l, x in r.undecided.items(): print('UNDECIDED', l, x)
    for l, its in r.failed.items():
        print('FAILED', l)
        for it in its:
            print('   ', it['message'])
            for a in it['at']: print('       ', a)
    if r.tool_error: print('TOOL', r.tool_error[:6000])
