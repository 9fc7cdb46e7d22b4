"""Fn: one function under contract."""
class Fn:
    def __init__(self, label, cxx, ps, props, requires=(), ensures=(), loops=(), entry='', exit='', at=None, heap=True,
                 decreases=None, attrs='', cls=None, static=False, covers=None, note='', noreach=False, hide=()):
        self.label = label
        self.cxx = cxx            # qualified C++ name
        self.ps = ps              # list of parameter types (desugared), or None = only candidate
        self.props = set(props.split()) if isinstance(props, str) else set(props)
        self.requires = list(requires)
        self.ensures = [e if isinstance(e, tuple) else (e, None) for e in ensures]
        self.loops = list(loops)
        self.entry, self.exit = entry, exit
        self.at = at or {}
        self.heap = heap
        self.decreases = decreases
        self.attrs = attrs
        self.note = note
        self.noreach = noreach
        self.hide = list(hide)          # spec functions kept folded in the body
