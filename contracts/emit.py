"""Emitters for calls of opaque (user supplied or element type) functions."""
from lib.ast import ExtractError
def _eq(x, d, this, args, n, fr):
    a = x.ex(args[0], fr); b = x.ex(args[1], fr)
    return ('s', x.tmp('bool', 'e_eq(h, %s, %s)' % (a[1], b[1])), 'bool')
def _lt(x, d, this, args, n, fr):
    a = x.ex(args[0], fr); b = x.ex(args[1], fr)
    return ('s', x.tmp('bool', 'e_lt(h, %s, %s)' % (a[1], b[1])), 'bool')
def _gt(x, d, this, args, n, fr):
    a = x.ex(args[0], fr); b = x.ex(args[1], fr)
    return ('s', x.tmp('bool', 'e_lt(h, %s, %s)' % (b[1], a[1])), 'bool')
def _ne(x, d, this, args, n, fr):
    r = _eq(x, d, this, args, n, fr)
    return ('s', '!' + r[1], 'bool')
def _pred(name):
    def f(x, d, this, args, n, fr):
        a = [x.ex(y, fr)[1] for y in args]
        return ('s', x.tmp('bool', '%s(h, %s)' % (name, ', '.join(a))), 'bool')
    return f
def _into(name):
    def f(x, d, this, args, n, fr):
        a = [x.ex(y, fr)[1] for y in args]
        if not x.elem_dst:
            raise ExtractError('element result')
        dst = x.elem_dst.pop()
        x.emit('%s(h, %s);' % (name, ', '.join([dst] + a)))
        return None
    return f
def _fcall(x, d, this, args, n, fr):
    x.emit('f_call(h, %s);' % x.ex(args[0], fr)[1])
    return None
def _inc(x, d, this, args, n, fr):
    x.emit('inc_call(h, %s);' % this[1])
    return this

