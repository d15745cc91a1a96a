"""Base class of the analyses driving the machine."""
from terms import *
from machine import *


class Client:
    def __init__(self):
        self.undecided = []

    def decide(self, m, cond):
        return None

    def values(self, m, t):
        return None

    def special(self, x):
        return False

    def on_return(self, m, v):
        raise NotImplementedError

    def on_end(self, m, e):
        m.outcomes.append((e.kind, e.msg, e.site, m.st))

    def on_undecided(self, m, msg):
        self.undecided.append((msg, m.st))


class ScalarClient(Client):
    """runs a root over symbolic characters and collects (outcome, emitted values, result, domain)"""

    def __init__(self):
        super().__init__()
        self.results = []

    def on_return(self, m, v):
        self.results.append((m.st.ghost, v, m.st.dom))
        raise PathEnd("pruned")


def h_emit(m, fn, a, *r):
    m.mark()
    m.st.ghost = m.st.ghost + (a[1],)
    return UNIT


def run_scalar(prog, root, nargs, emit=False, max_paths=60000):
    c = ScalarClient()
    m = Machine(prog, c)
    fn = prog.root(root)
    for f in prog.fns:
        if f.deff == "harness::emit":
            m.handlers[f.id] = h_emit
    st = State()
    st.ghost = ()
    st.dom = Dom({i: CHARS for i in range(nargs)})
    m.st = st
    args = [sym(i) for i in range(nargs)]
    if emit:
        st.heap[HEAP] = Opaque("sink")
        args.append(Ptr(HEAP, ()))
    m.push(fn, args, None, None)
    m.max_paths = max_paths
    m.start(st)
    m.explore()
    return m, c
