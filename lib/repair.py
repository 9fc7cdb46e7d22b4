"""Adapting loop annotations to a rewritten loop.  A contract (requires/ensures) is never touched: what is varied are the
hints of the proof (loop invariants, measures, names of locals in them), so whatever the verifier accepts is a proof of the
same contract for the current code.  Tried only for functions of a changed tree whose proof does not go through."""
import concurrent.futures as cf, copy, itertools, os, re, time
from . import prove

INT = {'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'}

def loops_of(txt):
    """[(first line of the header, line of the brace)] in the lines of txt"""
    ls = txt.split('\n')
    out = []
    for i, l in enumerate(ls):
        if l.strip() == 'loop':
            ind = l[:len(l) - len(l.lstrip())]
            for j in range(i + 1, len(ls)):
                if ls[j] == ind + '{':
                    out.append((i + 1, j)); break
    return out

def shifts(txt, names):
    ls = txt.split('\n')
    for a, b in loops_of(txt):
        hdr = '\n'.join(ls[a:b])
        for v, ty in names:
            if ty == 'Ptr': rx, rep = r'\b%s@' % re.escape(v), '(%s@ %%s 1)' % v
            elif ty in INT: rx, rep = r'(?<![\w.])%s\b(?!@)' % re.escape(v), '(%s %%s 1)' % v
            else: continue
            if not re.search(rx, hdr): continue
            for s in '+-':
                new = re.sub(rx, lambda m: rep % s, hdr)
                yield 'loop invariant with %s %s 1' % (v, s), '\n'.join(ls[:a] + [new] + ls[b:])

def countup(txt, names, new):
    """a loop that counted a parameter down now counts a new local up to it"""
    for i, ti in new:
        for v, tv in names:
            if ti not in INT or tv not in INT or v == i or not re.search(r'\b%s_in\b' % re.escape(v), txt): continue
            ls = txt.split('\n')
            rx = re.compile(r'(?<![\w.])%s\b(?!@)' % re.escape(v))
            hdr = set()
            for a, b in loops_of(txt): hdr |= set(range(a, b))
            body = set()
            for a, b in loops_of(txt):
                ind = ls[b]
                e = next((j for j in range(b + 1, len(ls)) if ls[j] == ind[:len(ind) - 1] + '}'), b)
                body |= {j for j in range(b, e) if re.match(r'\s*(proof|let ghost|h\.\w+ = Ghost)\b', ls[j])}
            for how, e in (('%s counted up to %s', '(%s_in - %s)' % (v, i)), ('%s counted down from %s', i)):
                out = []
                for j, l in enumerate(ls):
                    if j in hdr or j in body: l = rx.sub(e, l)
                    out.append(l)
                    if j in hdr and l.strip() == 'invariant': out.append('      0 <= %s, %s <= %s_in || %s == 0, %s == %s_in,' % (i, i, v, i, v, v))
                yield how % (i, v), '\n'.join(out)

def hints_of(txt):
    """the lines of txt that belong to the proof: loop headers and ghost code"""
    ls = txt.split('\n')
    hdr = set()
    for a, b in loops_of(txt): hdr |= set(range(a, b))
    return hdr | {j for j, l in enumerate(ls) if re.match(r'\s*(proof|let ghost|h\.\w+ = Ghost)\b', l)}

def countdown(txt, i, v):
    """the converse: i counted up to the parameter v, which is now counted down (the text has i__ for i)"""
    ls = txt.split('\n')
    k = hints_of(txt)
    rx = re.compile(r'(?<![\w.])%s\b(?!@)' % re.escape(v))
    out = []
    for j, l in enumerate(ls):
        if j in k and not l.strip().startswith('let ghost %s_in' % v):
            l = re.sub(r'\b%s__' % re.escape(i), '(%s_in - %s)' % (v, v), rx.sub(v + '_in', l))
        out.append(l)
    if re.search(r'\b%s__' % re.escape(i), '\n'.join(out)): return None
    return '\n'.join(out)

def plainer(txt):
    """proof steps inside the function left out, or an assertion without its proof"""
    ls = txt.split('\n')
    for j, l in enumerate(ls):
        s = l.strip()
        if not re.match(r'(proof\b.*|assert\(.*)[;}]$', s): continue
        m = re.match(r'(.*assert\(.*?\)) by \{[^{}]*\}(.*)$', l)
        if m: yield 'a proof step simplified', '\n'.join(ls[:j] + [m.group(1) + (';' if not m.group(2).startswith(';') else '') + m.group(2)] + ls[j + 1:])
        if '= ' not in re.sub(r'==+>?|<=|>=|!=', '', s) or s.startswith('assert'): yield 'without a proof step', '\n'.join(ls[:j] + ls[j + 1:])

def solved(txt, v, ptr, skip=None):
    """a local whose value the invariants fix (L == R with v in it once) is written out, as the loop does not maintain it any more"""
    ls = txt.split('\n')
    k = hints_of(txt)
    rx = re.compile(r'(?<![\w.])%s\b@' % re.escape(v) if ptr else r'(?<![\w.])%s\b(?!@)' % re.escape(v))
    hdr = set()
    for a, b in loops_of(txt): hdr |= set(range(a, b))
    for j in sorted(hdr):
        e = ls[j].strip().rstrip(',')
        m = re.match(r'([^=<>!&|]+) == ([^=<>!&|]+)$', e)
        if not m or len(rx.findall(e)) != 1: continue
        l, r = m.groups()
        if rx.search(l): l, r = r, l
        z = rx.sub('0', r)
        for sol in ('((%s) - (%s))' % (l, z), '((%s) - (%s))' % (z, l)):
            out = [rx.sub(lambda m: sol, x) if i in k and i != j and not re.match(r'\s*let ghost %s_in\b' % re.escape(v), x) else x for i, x in enumerate(ls) if i != j]
            yield 'with %s from the invariant %s' % (v.rstrip('_'), e[:80].replace(v, v.rstrip('_'))), '\n'.join(out)

def indexed(txt, v, new, names, fields):
    """a pointer that ran over a range is now an index"""
    ls = txt.split('\n')
    k = hints_of(txt)
    rx = re.compile(r'(?<![\w.])%s\b@' % re.escape(v))
    bases = ['%s@' % p for p, t in names if t == 'Ptr'] + ['h.%s@[%s@]' % (f, p) for p, t in names if t == 'Ptr' for f in fields if f in ('el', 'la')]
    for i, ti in new:
        if ti not in INT: continue
        for b in bases[:10]:
            out = [rx.sub(lambda m: '(%s + %s)' % (b, i), x) if j in k else x for j, x in enumerate(ls)]
            yield '%s as %s + %s' % (v.rstrip('_'), b, i), '\n'.join(out)

def candidates(new, names, fields):
    out = []
    for x, tx in new:
        for y, ty in names:
            if y == x or y.endswith('_in') and False: continue
            if tx == 'Ptr' and ty == 'Ptr':
                out += ['%s@ == %s@' % (x, y), '%s@ == %s@ + 1' % (x, y), '%s@ + 1 == %s@' % (x, y), '%s@ <= %s@' % (x, y), '%s@ <= %s@' % (y, x)]
                for f in fields:
                    out += ['%s@ == h.%s@[%s@]' % (x, f, y), '%s@ == h.%s@[%s@]' % (y, f, x)]
            elif tx in INT and ty in INT:
                out += ['%s == %s' % (x, y), '%s == %s + 1' % (x, y), '%s + 1 == %s' % (x, y), '%s <= %s' % (x, y), '%s <= %s' % (y, x)]
            elif tx == ty == 'bool':
                out += ['%s == %s' % (x, y), '%s == !%s' % (x, y)]
        if tx == 'Ptr':
            out += ['h.%s@[%s@] == h0.%s@[%s@]' % (f, x, f, x) for f in fields]
    seen = []
    for c in out:
        if c not in seen: seen.append(c)
    return seen[:120]

class Job:
    def __init__(self, res, lab, work):
        self.res, self.lab, self.work = res, lab, work
        self.n = itertools.count()
        os.makedirs(work, exist_ok=True)

    def run(self, txt):
        r = copy.copy(self.res)
        r.undecided = {l: 'not examined' for l in self.res.order if l != self.lab}
        r.pieces = {self.lab: txt}
        prove.assemble(r)
        if self.lab in r.undecided: return False, [], r
        path = os.path.join(self.work, '%s_%d.rs' % (self.lab, next(self.n)))
        open(path, 'w').write(r.text)
        js, errs, raw, wall, cmd = prove.verus(path, list(getattr(self.res.mod, 'VERUS', [])) + ['--verify-root', '--verify-function', self.lab], 60)
        v = (js or {}).get('verification-results', {})
        ok = bool(js) and v.get('success', True) and v.get('errors') == 0 and v.get('verified', 0) >= 1 \
            and not v.get('encountered-error') and not v.get('encountered-vir-error') and not any(e.get('level') == 'error' for e in errs)
        r.cmd = ' '.join(cmd)
        return ok, errs, r

    def fields(self):
        fs = dict.fromkeys(re.findall(r'pub (\w+): Ghost<I?Map<int, int>>', self.res.text))
        return [f for f in fs if f in ('next', 'prev', 'pa', 'le', 'ri', 'la', 'el', 'tail')]

    def houdini(self, txt, new, names, end):
        """add candidate facts about new locals to the invariants and drop those that do not hold"""
        lp = loops_of(txt)
        if not lp or not new: return None
        fields = self.fields()
        cands = {k: candidates(new, names, fields) for k in range(len(lp))}
        for rnd in range(6):
            if time.time() > end: return None
            ls = txt.split('\n'); marks = {}
            for k in reversed(range(len(lp))):
                a, b = lp[k]
                has = a < len(ls) and ls[a].strip() == 'invariant'
                add = ['      %s,' % c for c in cands[k]]
                ls[a + 1 if has else a:a + 1 if has else a] = ([] if has else ['    invariant']) + add
            t = '\n'.join(ls)
            ok, errs, r = self.run(t)
            if ok:
                used = sorted({c for k in cands for c in cands[k]})
                return t, 'with inferred facts about %s' % ', '.join(x for x, _ in new)
            base = next((a for a, b, l in r.lines if l == self.lab), None)
            if base is None: return None
            tl = r.text.split('\n')
            drop = set(); unknown = set()
            for e in errs:
                if e.get('level') != 'error': continue
                for s in e.get('spans', []):
                    line = tl[s['line_start'] - 1].strip().rstrip(',')
                    # which loop: count loop headers before
                    k = sum(1 for i in range(base - 1, s['line_start'] - 1) if tl[i].strip() == 'loop') - 1
                    if k in cands and line in cands[k]: drop.add((k, line))
            if not drop: return None
            for k, c in drop: cands[k].remove(c)
        return None

    def go(self, end):
        res, lab = self.res, self.lab
        fn = res.fns[lab]
        old = [tuple(x) for x in (res.lock.get(lab) or {'names': []})['names']]
        why = res.undecided.get(lab)
        base = []           # (note, text, names)
        if lab in res.failed and lab in res.orig:
            base = [('', res.orig[lab], res.vars[lab])]
        elif why:
            m = re.match(r"annotations do not attach: \[(.*)\]", why)
            c = re.match(r"verifier: cannot find value `(\w+)`", why)
            miss = re.findall(r"'(\w+)'", m.group(1)) if m else [c.group(1)] if c else []
            if len(miss) > 2 or lab not in res.defs: return None
            types = dict(old)
            try:
                t0 = res.xl.function(fn, res.defs[lab], res.ren.get(lab) or {})
            except Exception:
                return None
            params = [tuple(x) for x in res.xl.params]
            names = params + [tuple(x) for x in res.xl.locals]
            # without the hints that speak of a local which is gone
            t = self.without(t0, miss) if miss else None
            if t: base.append(('without the hints about %s' % ', '.join(miss), t, names))
            alts = [[y for y, ty in names if ty == types.get(x)][:5] for x in miss]
            for pick in (itertools.islice(itertools.product(*alts), 8) if miss else []):
                ren = dict(res.ren.get(lab) or {}); ren.update(zip(miss, pick))
                try:
                    base.append(('%s read as %s' % (', '.join(miss), ', '.join(pick)), res.xl.function(fn, res.defs[lab], ren), names))
                except Exception:
                    pass
            if len(miss) == 1 and types.get(miss[0]) in INT:
                for v, tv in [x for x in params if x[1] in INT][:3]:
                    try:
                        txt = res.xl.function(fn, res.defs[lab], dict(res.ren.get(lab) or {}, **{miss[0]: miss[0] + '__'}))
                        c = countdown(txt, miss[0], v)
                        if c: base.insert(0, ('%s counted down instead of %s' % (v, miss[0]), c, names))
                    except Exception:
                        pass
        was = (res.lock.get(lab) or {}).get('calls')
        newc = [c for c in prove.callees(res.orig[lab], res.fns) if c not in was and c != lab] if was is not None and lab in res.orig else []
        for cs in [newc[:1], newc[1:2], newc[:2]] if len(newc) > 1 else [newc] if newc else []:
            # a helper under contract that the function did not use before: its body instead of its contract
            try:
                res.xl.inlined = set(cs)
                txt = res.xl.function(fn, res.defs[lab], res.ren.get(lab) or {})
                base.append(('%s inlined' % ', '.join(cs), txt, [tuple(x) for x in res.xl.params + res.xl.locals]))
            except Exception:
                pass
            finally:
                res.xl.inlined = ()
        extra = []
        gone = [x for x, ty in old if (x, ty) not in dict.fromkeys(tuple(y) for y in res.vars.get(lab, []))] if lab in res.defs else []
        fields = self.fields()
        if lab in res.failed and base:
            _, txt, names = base[0]
            for x, ty in names:
                if ty in INT and re.search(r'\b%s_in - %s\b' % (re.escape(x), re.escape(x)), txt): extra += solved(txt, x, False)
            if any('assertion' in str(e) for e in res.failed[lab]): extra += plainer(txt)
        for x in [x for x in gone if x in prove.mentions(fn, gone)][:2]:
            ty = dict(old)[x]
            if ty != 'Ptr' and ty not in INT: continue
            try:
                txt = res.xl.function(fn, res.defs[lab], dict(res.ren.get(lab) or {}, **{x: x + '__'}))
            except Exception:
                continue
            ps = [tuple(y) for y in res.xl.params + res.xl.locals]
            nw = [y for y in ps if tuple(y) not in old]
            if ty == 'Ptr': extra += indexed(txt, x + '__', nw, [tuple(y) for y in res.xl.params], fields)
            extra += solved(txt, x + '__', ty == 'Ptr')
        extra = [(n, t) for n, t in extra if not re.search(r'\w__\b', t)]
        if not base and not extra: return None
        onames = {n for n, _ in old}
        with cf.ThreadPoolExecutor(6) as ex:
            todo = []
            for note, txt, names in base:
                if note: todo.append((note, txt))
            for note, txt, names in base[:3]:
                for n2, t2 in shifts(txt, names):
                    todo.append(((note + '; ' if note else '') + n2, t2))
            cu = extra
            for note, txt, names in base[:3]:
                new = [x for x in names if x[0] not in onames and x[1] in INT]
                cu += [((note + '; ' if note else '') + n2, t2) for n2, t2 in countup(txt, names, new)]
            todo = (cu[:20] + todo)[:32]
            hs = []
            for note, txt, names in base[:3]:
                new = [x for x in names if x[0] not in onames and x[1] in INT | {'Ptr', 'bool'}]
                if why: new = new or []
                if new: hs.append((note, ex.submit(self.houdini, txt, new, names, end)))
            fs = {ex.submit(self.run, t): (n, t) for n, t in todo}
            win = None
            try:
                for f in cf.as_completed(fs, timeout=max(1, end - time.time())):
                    try: ok = f.result()[0]
                    except Exception: ok = False
                    if ok: win = fs[f]; break
            except cf.TimeoutError:
                pass
            if not win:
                for note, f in hs:
                    try: h = f.result(timeout=max(1, end - time.time()))
                    except Exception: h = None
                    if h: win = ((note + '; ' if note else '') + h[1], h[0]); break
            for f in fs: f.cancel()
            for _, f in hs: f.cancel()
        return win

    def without(self, txt, miss):
        """drop the loop invariants that mention a name; None if other hints mention it"""
        ls = txt.split('\n')
        rx = re.compile(r'\b(%s)(_in)?\b' % '|'.join(map(re.escape, miss)))
        keep = set()
        for a, b in loops_of(txt): keep |= set(range(a, b))
        out = []
        for i, l in enumerate(ls):
            if i in keep and rx.search(l):
                if 'decreases' in l: return None
                continue
            out.append(l)
        return '\n'.join(out)

def repair(res, labels, work, budget=150):
    """tries to prove the functions labels of res; returns {label: how}"""
    end = time.time() + budget
    done = {}
    for lab in labels:
        if time.time() > end: break
        try:
            win = Job(res, lab, os.path.join(work, 'adapt')).go(min(end, time.time() + 90))
        except Exception as e:
            if os.environ.get('VDEBUG'): raise
            win = None
        if win:
            done[lab] = win[0]
            res.pieces[lab] = win[1]
            res.failed.pop(lab, None); res.undecided.pop(lab, None)
    return done
