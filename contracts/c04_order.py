"""C04: execution order: closure of the network, loop breaking, topological sorting."""
from pyvc.spec import *
from contracts.net import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['networks are finite', 'the recursion of the depth first search is as deep as the interpreter allows',
               'a finite acyclic graph has a weight for each node that is one more than the sum of the weights of its successors (definition by recursion)']
G, BL, EX = 'klang.graph.', 'klang.block.', 'klang.execution.'
I, Bo = z3.IntSort(), z3.BoolSort()
A1, A2 = z3.ArraySort(I, I), z3.ArraySort(I, z3.ArraySort(I, I))


def again(V, f, *args):
    """The body of f, although it has a contract."""
    V.inline_once = f.qual
    return V.call_func(f, list(args), {})


class Matrix:
    """A graph of N nodes: any square matrix; adj(i, j) when there is an edge."""

    def __init__(self, V, name='graph', n=None):
        self.V = V
        self.N = V.int('nodes') if n is None else n
        V.assume(self.N >= 0)
        self.f = z3.Function(fresh_name(name), I, I, I)
        self.array = V.mkarr((self.N, self.N), lambda i, j: self.f(Z(i), Z(j)), 'int')

    def adj(self, i, j):
        return self.f(i, j) != 0

    def node(self, i):
        return And(i >= 0, i < self.N)


def neighbours(V, g, out=True):
    """Contract of get_successors / get_predecessors: all neighbours, each once."""
    at, n, pos = z3.Function(fresh_name('neighbour'), I, I, I), z3.Function(fresh_name('neighbours'), I, I), z3.Function(fresh_name('place'), I, I, I)
    edge = (lambda v, w: g.adj(v, w)) if out else (lambda v, w: g.adj(w, v))
    cell = (lambda v, w: g.f(v, w)) if out else (lambda v, w: g.f(w, v))
    V.assume(All([(0, g.N)], lambda v: n(v) >= 0, pat=lambda v: n(v)))
    V.assume(All([(0, g.N), (0, None)], lambda v, i: imp(i < n(v), And(g.node(at(v, i)), edge(v, at(v, i)), pos(v, at(v, i)) == i)), pat=lambda v, i: at(v, i)))
    V.assume(All([(0, g.N), (0, g.N)], lambda v, w: imp(edge(v, w), And(pos(v, w) >= 0, pos(v, w) < n(v), at(v, pos(v, w)) == w)), pat=lambda v, w: cell(v, w)))

    def handler(V, a):
        V.check('neighbours of a node', g.node(Z(a['node'])))
        t = Z(a['node'])
        return V.mkarr((n(t),), lambda i: at(t, Z(i)), 'int')
    handler.at, handler.n, handler.pos = at, n, pos
    return handler


for _name, _out in (('get_successors', True), ('get_predecessors', False)):
    def _unit(name=_name, out=_out):
        @U.unit(name, claim='exactly the nodes with an edge %s the node, each once' % ('from' if out else 'to'))
        def edges(V):
            g = Matrix(V)
            v = V.int('v')
            V.assume(g.node(v))
            r = V.seq_of(V.expect_ok('neighbours', G + name, [g.array, v]))
            edge = (lambda w: g.adj(v, w)) if out else (lambda w: g.adj(w, v))
            V.check('only neighbours', All((0, r.n), lambda i: And(g.node(Z(r[i])), edge(Z(r[i]))), pat=lambda i: Z(r[i])))
            V.check('each once', All([(0, r.n), (0, r.n)], lambda i, j: imp(i < j, Z(r[i]) != Z(r[j]))))
            w = V.int('w')
            V.assume(And(g.node(w), edge(w)))
            V.check('every neighbour', V.exists(0, r.n, lambda i: Z(r[i]) == w))
    _unit()


@U.unit('graph matrix', claim='the matrix has an edge exactly where one is listed')
def matrix(V):
    n = V.int('n')
    V.assume(n >= 1)
    e = V.seq('edges', KTuple(KInt(), KInt()))
    V.assume(e.n >= 1)
    V.assume(All((0, e.n), lambda i: And(Z(e[i][0]) >= 0, Z(e[i][0]) < n, Z(e[i][1]) >= 0, Z(e[i][1]) < n), pat=lambda i: [Z(e[i][0]), Z(e[i][1])]))
    r = V.expect_ok('graph_matrix', G + 'graph_matrix', [V.mklist(e)], dict(order=n))
    V.check('square', len(r.shape) == 2 and And(Z(r.shape[0]) == n, Z(r.shape[1]) == n))
    i, j, k = V.int('i'), V.int('j'), V.int('k')
    V.assume(And(i >= 0, i < n, j >= 0, j < n, k >= 0, k < e.n))
    V.check('listed edges', Z(r.at(Z(e[k][0]), Z(e[k][1]))) != 0)
    V.check('no other edges', imp(Z(r.at(i, j)) != 0, V.exists(0, e.n, lambda q: And(Z(e[q][0]) == i, Z(e[q][1]) == j))))


class Search:
    """The state of the depth first search: white, gray, black, the back edges, and ghost finishing times."""

    def __init__(self, V, g):
        self.V, self.g = V, g
        self.REACH = z3.Function(fresh_name('reach'), I, I, Bo)
        R = self.REACH
        self.succ = neighbours(V, g)
        V.contracts[G + 'get_successors'] = self.succ
        V.assume(All([(0, g.N)], lambda v: R(v, v), pat=lambda v: self.succ.n(v)))
        V.assume(All([(0, g.N), (0, g.N), (0, g.N)], lambda a, b, c: imp(R(a, b), g.adj(b, c), R(a, c)), pat=lambda a, b, c: [[R(a, b), g.f(b, c)]]))
        cell = lambda name, sort: GhostCell(V, z3.Const(fresh_name(name), sort), lambda V: z3.Const(fresh_name(name), sort))
        self.fin, self.clock, self.index = cell('finished', A1), cell('clock', I), cell('index', A2)
        V.assume(self.clock.value >= 0)

    def bind(self, f):
        """The sets and the list the search function f works on."""
        find = lambda n: f.closure.find(n).vars[n]
        self.white, self.gray, self.black, self.edges = [find(n) for n in ('white', 'gray', 'black', 'backEdges')]

    def sets(self):
        return [lambda x, s=s: s.mem(x) if s.items is None else Or(*[Z(x) == Z(y) for y in s.items]) for s in (self.white, self.gray, self.black)]

    def listed(self, s, x, y):
        if const_int(s.n) == 0:
            return z3.BoolVal(False)
        i = z3.Select(z3.Select(self.index.value, x), y)
        return And(i >= 0, i < Z(s.n), Z(s[i][0]) == x, Z(s[i][1]) == y)

    def note(self, V):
        """Ghost: remember the place of the edge listed last."""
        s = self.edges.seq
        if const_int(s.n) != 0:
            k = Z(s.n) - 1
            x, y = Z(s[k][0]), Z(s[k][1])
            ix = self.index.value
            self.index.set(V, z3.If(k >= 0, z3.Store(ix, x, z3.Store(z3.Select(ix, x), y, k)), ix))

    def inv(self):
        g, s, fin = self.g, self.edges.seq, self.fin.value
        W, Y, B = self.sets()
        r = [('every node has one colour', All((0, None), lambda x: And(iff(x < g.N, Or(W(x), Y(x), B(x))), Not(And(W(x), Y(x))), Not(And(W(x), B(x))), Not(And(Y(x), B(x)))), pat=lambda x: [W(x), Y(x), B(x), self.succ.n(x)])),
             ('only nodes have colours', All([None], lambda x: imp(Or(W(x), Y(x), B(x)), And(x >= 0, x < g.N)), pat=lambda x: [W(x), Y(x), B(x)])),
             ('time', self.clock.value >= 0),
             ('finished before now', All([None], lambda x: imp(B(x), And(fin[x] < self.clock.value, fin[x] >= 0)), pat=lambda x: [fin[x]])),
             ('edges of finished nodes', All([(0, g.N), (0, g.N)], lambda u, v: imp(B(u), g.adj(u, v), Or(self.listed(s, u, v), And(B(v), fin[v] < fin[u]))), pat=lambda u, v: [[g.f(u, v)]]))]
        if const_int(s.n) != 0:
            r.append(('back edges close loops', All((0, s.n), lambda k: And(g.node(Z(s[k][0])), g.node(Z(s[k][1])), g.adj(Z(s[k][0]), Z(s[k][1])), self.REACH(Z(s[k][1]), Z(s[k][0]))), pat=lambda k: [Z(s[k][0]), Z(s[k][1])])))
        return [(a, f) for a, f in r]

    def freeze(self):
        def now(s):
            mem, items = s.mem, None if s.items is None else list(s.items)
            return mem if items is None else (lambda x: Or(*[Z(x) == Z(y) for y in items]))
        s, ix = self.edges.seq, self.index.value

        def listed(x, y):
            if const_int(s.n) == 0:
                return z3.BoolVal(False)
            i = z3.Select(z3.Select(ix, x), y)
            return And(i >= 0, i < Z(s.n), Z(s[i][0]) == x, Z(s[i][1]) == y)
        return dict(W=now(self.white), Y=now(self.gray), B=now(self.black), fin=self.fin.value, clock=self.clock.value, listed=listed)

    def grown(self, o, gray):
        """What a search may do since state o; gray(x): the nodes that are gray now."""
        W, Y, B = self.sets()
        s, fin = self.edges.seq, self.fin.value
        return [('no node becomes white', All([None], lambda x: imp(W(x), o['W'](x)), pat=lambda x: [W(x)])),
                ('gray nodes', All([None], lambda x: iff(Y(x), gray(x)), pat=lambda x: [Y(x)])),
                ('time passes', self.clock.value >= o['clock']),
                ('finished nodes stay', All([None], lambda x: imp(o['B'](x), And(B(x), fin[x] == o['fin'][x])), pat=lambda x: [fin[x], o['B'](x)])),
                ('listed edges stay', All([None, None], lambda x, y: imp(o['listed'](x, y), self.listed(s, x, y)), pat=lambda x, y: [[self.g.f(x, y)]]))]

    def arbitrary(self):
        """Any state (V.havoc of all that a search changes)."""
        V = self.V
        for s in (self.white, self.gray, self.black):
            V.wrote(s, None, KInt())
            V.havoc_set(s, KInt())
        for c in (self.fin, self.clock, self.index):
            V.wrote(c, None, None)
            c.havoc(V)
        n = KInt().fresh('listed')
        V.assume(n >= 0)
        V.setseq(self.edges, Seq.fresh('back edges', KTuple(KInt(), KInt()), n))

    def pre(self, parent):
        W, Y, B = self.sets()
        return [('starts at a white node', W(parent)), ('gray nodes lead here', All([None], lambda x: imp(Y(x), self.REACH(x, parent)), pat=lambda x: [Y(x)]))]

    def call(self, V, a):
        """Contract of the search from one node."""
        parent = Z(a['parent'])
        for label, f in self.pre(parent) + self.inv():
            V.check('search from a node: ' + label, f)
        o = self.freeze()
        self.arbitrary()
        for label, f in self.inv() + self.grown(o, o['Y']):
            V.assume(f)
        V.assume(self.sets()[2](parent))
        return None


@U.unit('depth first search', time_limit=400, claim='a search from a white node blackens it; each edge of a finished node is a listed back edge or leads to a node finished earlier; listed edges lie on loops')
def search(V):
    g = Matrix(V)
    st = Search(V, g)
    q = G + 'find_back_edges.dfs'
    state = {}

    def handler(V, a):
        if 'entered' in state:
            parent = Z(a['parent'])
            W = st.sets()[0]
            o = state['entered']
            V.check('termination: a search below has no more white nodes', All([None], lambda x: imp(W(x), o['W'](x)), pat=lambda x: [W(x)]))
            V.check('termination: a search below has fewer white nodes', And(Not(W(state['parent'])), o['W'](state['parent'])))
            return st.call(V, a)
        f = V.callee
        st.bind(f)
        st.arbitrary()
        parent = V.int('parent')
        for label, fm in st.pre(parent) + st.inv():
            V.assume(fm)
        o = st.freeze()
        state.update(entered=o, parent=parent)
        gray = lambda x: Or(o['Y'](x), x == parent)

        def children(V, L):
            B = st.sets()[2]
            s = st.edges.seq
            at, n = st.succ.at, st.succ.n
            return st.inv() + st.grown(o, gray) + [('the node itself is not white', Not(st.sets()[0](parent))),
                ('children so far', All((0, L.k), lambda i: Or(B(at(parent, i)), st.listed(s, parent, at(parent, i))), pat=lambda i: at(parent, i)))]
        V.loops[q + '#0'] = LoopSpec(children, after_body=lambda V, L: st.note(V))
        s, v = V.outcome(Builtin('search', lambda V: again(V, f, parent)), [])
        V.check('no exception', s == 'ok')
        st.fin.set(V, z3.Store(st.fin.value, parent, st.clock.value))
        st.clock.set(V, st.clock.value + 1)
        for label, fm in st.inv() + st.grown(o, o['Y']):
            V.check('after the search: ' + label, fm)
        V.check('after the search: finished', st.sets()[2](parent))
        raise PathEnd()
    V.contracts[q] = handler
    V.loops[G + 'find_back_edges#0'] = LoopSpec(lambda V, L: [])
    V.expect_ok('find_back_edges', G + 'find_back_edges', [g.array])


@U.unit('find_back_edges', time_limit=400, claim='the listed edges lie on loops, and without them every edge leads to a node finished earlier (there is no loop left)')
def back_edges(V):
    g = Matrix(V)
    st = Search(V, g)
    q = G + 'find_back_edges'
    at_call = {}

    def handler(V, a):
        st.bind(V.callee)
        at_call.update(white=st.freeze()['W'], node=Z(a['parent']))
        return st.call(V, a)
    V.contracts[q + '.dfs'] = handler

    class Sets:
        pass

    def inv(V, L):
        st.white, st.gray, st.black, st.edges = [L[n] for n in ('white', 'gray', 'black', 'backEdges')]
        Y = st.sets()[1]
        return st.inv() + [('no gray nodes', All([None], lambda x: Not(Y(x)), pat=lambda x: [Y(x)]))]

    def after(V, L):
        W, old = st.sets()[0], at_call['white']
        V.check('termination: no node becomes white', All([None], lambda x: imp(W(x), old(x)), pat=lambda x: [W(x)]))
        V.check('termination: the chosen node was white and is not any more', And(old(at_call['node']), Not(W(at_call['node']))))
    V.loops[q + '#0'] = LoopSpec(inv, after_body=after)
    r = V.seq_of(V.expect_ok('find_back_edges', q, [g.array]))
    V.check('the graph is not changed', g.array.at(V.int('i'), V.int('j')) == g.f(V.int('i'), V.int('j')))
    i, j = V.int('i'), V.int('j')
    V.assume(And(g.node(i), g.node(j), g.adj(i, j)))
    V.check('finishing times are not negative', st.fin.value[i] >= 0)
    V.check('no loop is left: every other edge leads to a node finished earlier', Or(st.listed(r, i, j), st.fin.value[j] < st.fin.value[i]))
    if const_int(r.n) != 0:
        k = V.int('k')
        V.assume(And(k >= 0, k < Z(r.n)))
        x, y = Z(r[k][0]), Z(r[k][1])
        V.check('listed edges are edges on a loop', And(g.node(x), g.node(y), g.adj(x, y), st.REACH(y, x)))


def broken(V, g, name='dag'):
    """Contract of remove_back_edges: a part of the graph without loops (rank falls along edges); only edges on loops are missing."""
    d = Matrix(V, name, g.N)
    REACH, RANK = z3.Function(fresh_name('reach'), I, I, Bo), z3.Function(fresh_name('rank'), I, I)
    V.assume(All([(0, g.N), (0, g.N)], lambda i, j: And(imp(d.adj(i, j), And(g.adj(i, j), RANK(j) < RANK(i))), imp(g.adj(i, j), Not(d.adj(i, j)), REACH(j, i))), pat=lambda i, j: [[d.f(i, j)], [g.f(i, j)]]))
    V.assume(All([(0, g.N)], lambda i: RANK(i) >= 0, pat=lambda i: RANK(i)))
    d.REACH, d.RANK = REACH, RANK
    return d


@U.unit('remove_back_edges', claim='what remains is part of the graph without loops; only edges that lie on loops are missing; the graph itself is not changed')
def removal(V):
    g = Matrix(V)
    e = V.seq('back edges', KTuple(KInt(), KInt()))
    IX = z3.Function('index', I, I, I)
    FIN, REACH = z3.Function('finished', I, I), z3.Function('reach', I, I, Bo)
    V.assume(All((0, e.n), lambda k: And(g.node(Z(e[k][0])), g.node(Z(e[k][1])), g.adj(Z(e[k][0]), Z(e[k][1])), REACH(Z(e[k][1]), Z(e[k][0]))), pat=lambda k: [Z(e[k][0]), Z(e[k][1])]))
    listed = lambda x, y: And(IX(x, y) >= 0, IX(x, y) < e.n, Z(e[IX(x, y)][0]) == x, Z(e[IX(x, y)][1]) == y)
    V.assume(All([(0, g.N), (0, g.N)], lambda i, j: imp(g.adj(i, j), Or(listed(i, j), FIN(j) < FIN(i))), pat=lambda i, j: g.f(i, j)))

    def found(V, a):
        x, y = V.int('x'), V.int('y')
        V.check('the whole graph is searched', imp(g.node(x), g.node(y), a['graph'].at(x, y) == g.f(x, y)))
        return V.mklist(e)
    V.contracts[G + 'find_back_edges'] = found

    def inv(V, L):
        d = L['dag']
        return [('removed so far', All((0, L.k), lambda k: d.at(Z(e[k][0]), Z(e[k][1])) == 0, pat=lambda k: [Z(e[k][0]), Z(e[k][1])])),
                ('only listed edges are removed', All([(0, g.N), (0, g.N)], lambda i, j: Or(d.at(i, j) == g.f(i, j), And(d.at(i, j) == 0, g.adj(i, j), REACH(j, i))), pat=lambda i, j: [[d.at(i, j)]]))]
    V.loops[G + 'remove_back_edges#0'] = LoopSpec(inv)
    d = V.expect_ok('remove_back_edges', G + 'remove_back_edges', [g.array])
    V.check('same nodes', And(len(d.shape) == 2, Z(d.shape[0]) == g.N, Z(d.shape[1]) == g.N))
    i, j = V.int('i'), V.int('j')
    V.assume(And(g.node(i), g.node(j)))
    V.check('only edges of the graph', imp(d.at(i, j) != 0, g.adj(i, j)))
    V.check('no loop is left', imp(d.at(i, j) != 0, FIN(j) < FIN(i)))
    V.check('missing edges lie on loops', imp(g.adj(i, j), d.at(i, j) == 0, REACH(j, i)))
    V.check('the graph is not changed', g.array.at(i, j) == g.f(i, j))


@U.unit('node is ready', claim='a node is ready exactly when all its predecessors are in the order')
def ready(V):
    g = Matrix(V)
    v = V.int('v')
    V.assume(g.node(v))
    pre = neighbours(V, g, False)
    V.contracts[G + 'get_predecessors'] = pre
    order = V.list('order', KInt())
    s = order.seq
    at = lambda i: Z(s[i])
    V.loops[G + '_node_is_ready#0'] = LoopSpec(lambda V, L: [('in the order so far', All((0, L.k), lambda i: V.exists(0, s.n, lambda q: at(q) == pre.at(v, i)), pat=lambda i: pre.at(v, i)))])
    r = V.expect_ok('node is ready', G + '_node_is_ready', [g.array, v, order])
    if V.decide(V.truth(r)):
        w = V.int('w')
        V.assume(And(g.node(w), g.adj(w, v)))
        V.check('ready: every predecessor is in the order', V.exists(0, s.n, lambda q: at(q) == w))
    else:
        V.check('not ready: a predecessor is missing', V.exists(0, g.N, lambda w: And(g.adj(w, v), Not(V.exists(0, s.n, lambda q: at(q) == w)))))


@U.unit('pigeonhole', claim='m different numbers below n: m <= n (induction on n)')
def pigeonhole(V):
    f = z3.Function('f', I, I)
    n, m = V.int('n'), V.int('m')
    V.assume(And(n >= 0, m >= 1))
    V.assume(All((0, m), lambda i: And(f(i) >= 0, f(i) < n + 1), pat=lambda i: f(i)))
    V.assume(All([(0, m), (0, m)], lambda i, j: imp(i != j, f(i) != f(j)), pat=lambda i, j: [[f(i), f(j)]]))
    gg = lambda i: z3.If(f(i) == n, f(m - 1), f(i))
    V.check('step: the first m - 1 numbers, with n replaced by the last one, are different and below n', And(
        V.formula(All((0, m - 1), lambda i: And(gg(i) >= 0, gg(i) < n))),
        V.formula(All([(0, m - 1), (0, m - 1)], lambda i, j: imp(i != j, gg(i) != gg(j))))))
    V.check('step: so m - 1 <= n gives m <= n + 1', imp(m - 1 <= n, m <= n + 1))
    V.check('base: no number is below 0', imp(m >= 1, And(f(0) >= 0, f(0) < 0), False))


@U.unit('topological sorting', time_limit=600, claim='every node once, after all its predecessors except across edges on loops; the sorting ends')
def sorting(V):
    g = Matrix(V)
    d = broken(V, g)
    N = g.N
    box = {}

    def removed(V, a):
        x, y = V.int('x'), V.int('y')
        V.check('the whole graph is made free of loops', imp(g.node(x), g.node(y), a['graph'].at(x, y) == g.f(x, y)))
        return d.array
    V.contracts[G + 'remove_back_edges'] = removed
    succ, pred = neighbours(V, d), neighbours(V, d, False)

    def of_dag(f):
        def handler(V, a):
            x, y = V.int('x'), V.int('y')
            V.check('neighbours in the graph without loops', imp(d.node(x), d.node(y), a['graph'].at(x, y) == d.f(x, y)))
            return f(V, a)
        return handler
    V.contracts[G + 'get_successors'] = of_dag(succ)
    W, WS = z3.Function('weight', I, I), z3.Function('weight of first successors', I, I, I)
    V.assume(All((0, N), lambda v: And(W(v) == 1 + WS(v, succ.n(v)), WS(v, 0) == 0, W(v) >= 1), pat=lambda v: W(v)))
    V.assume(All([(0, N), (0, None)], lambda v, i: imp(i < succ.n(v), WS(v, i + 1) == WS(v, i) + W(succ.at(v, i))), pat=lambda v, i: [[WS(v, i + 1)], [succ.at(v, i)]]))

    class Ghost(GhostCell):
        """The queue as a window [head, head + n) of a two-sided log; where: a place of a node in the window; cost: prefix sums of weights; place: position in the order."""

        def __init__(self, V):
            f = lambda V: dict(head=z3.Int(fresh_name('head')), log=z3.Const(fresh_name('log'), A1), where=z3.Const(fresh_name('where'), A1),
                               cost=z3.Const(fresh_name('cost'), A1), place=z3.Const(fresh_name('place'), A1))
            super().__init__(V, f(V), f)

        def __getattr__(self, n):
            return self.__dict__['value'][n]

        def update(self, V, **kw):
            self.set(V, dict(self.value, **kw))
    gh = Ghost(V)
    # at first the queue holds 0 .. N-1 and the order is empty
    V.assume(gh.head == 0)
    V.assume(All((0, N), lambda p: And(gh.log[p] == p, gh.where[p] == p, gh.cost[p + 1] == gh.cost[p] + W(p)), pat=lambda p: [gh.log[p], gh.where[p], gh.cost[p + 1]]))
    x = z3.Int('first')
    V.check('induction (downwards), prefix sums of weights are at most the last one: step', imp(x >= 0, x < N, gh.cost[x + 1] <= gh.cost[N], gh.cost[x] <= gh.cost[N]))
    V.assume(All([(0, N + 1)], lambda p: gh.cost[p] <= gh.cost[N], pat=lambda p: gh.cost[p]))
    y = z3.Int('successors')
    V.check('induction, sums of weights of successors are not negative: step', imp(x >= 0, x < N, y >= 0, y < succ.n(x), WS(x, y) >= 0, WS(x, y + 1) >= 0), hints=[succ.at(x, y), W(succ.at(x, y))])
    V.check('induction (downwards), sums of weights are at most the last one: step', imp(x >= 0, x < N, y >= 0, y < succ.n(x), WS(x, y + 1) <= WS(x, succ.n(x)), WS(x, y) <= WS(x, succ.n(x))), hints=[succ.at(x, y), W(succ.at(x, y))])
    V.assume(All([(0, N), (0, None)], lambda v, i: imp(i <= succ.n(v), And(WS(v, i) >= 0, WS(v, i) <= WS(v, succ.n(v)))), pat=lambda v, i: WS(v, i)))

    def queued(s, v):
        return And(gh.where[v] >= gh.head, gh.where[v] < gh.head + Z(s.n), gh.log[gh.where[v]] == v)

    def ordered(s, v):
        return And(gh.place[v] >= 0, gh.place[v] < Z(s.n), at(s, gh.place[v]) == v)

    def inv(V, L):
        Q, O = V.seq_of(L['queue']), V.seq_of(L['order'])
        box.update(Q=Q, O=O)
        H, T = gh.head, gh.head + Z(Q.n)
        r = [('queue', All((0, Q.n), lambda i: And(Z(Q[i]) == gh.log[H + i], d.node(Z(Q[i]))), pat=lambda i: Z(Q[i]))),
             ('window', All((H, T), lambda p: d.node(gh.log[p]), pat=lambda p: gh.log[p])),
             ('costs', All((H, T), lambda p: gh.cost[p + 1] == gh.cost[p] + W(gh.log[p]), pat=lambda p: [gh.log[p]])),
             ('costs are at most the last one', All((H, T + 1), lambda p: gh.cost[p] <= gh.cost[T], pat=lambda p: gh.cost[p])),
             ('every node is in the order, queued, or waits for a predecessor that is not in the order',
              All((0, N), lambda v: Or(ordered(O, v), queued(Q, v), V.exists(0, N, lambda p: And(d.adj(p, v), Not(ordered(O, p))))), pat=lambda v: [gh.where[v], gh.place[v]]))]
        if const_int(O.n) != 0:
            r += [('order: nodes, each once', All((0, O.n), lambda i: And(d.node(Z(O[i])), gh.place[Z(O[i])] == i), pat=lambda i: Z(O[i]))),
                  ('order: after all predecessors', All([(0, O.n), (0, N)], lambda i, p: imp(d.adj(p, Z(O[i])), And(ordered(O, p), gh.place[p] < i)), pat=lambda i, p: [[d.f(p, Z(O[i]))]]))]
        return r
    sorting.gh = gh

    def is_ready(V, a):
        """Contract of _node_is_ready."""
        v = Z(a['node'])
        O = V.seq_of(a['order'])
        x, y = V.int('x'), V.int('y')
        V.check('ready in the graph without loops', imp(d.node(x), d.node(y), a['graph'].at(x, y) == d.f(x, y)))
        V.check('ready: a node', d.node(v))
        V.check('ready: the order so far', O is box['O'])
        if V.decide(z3.Bool(fresh_name('ready'))):
            V.assume(All((0, N), lambda p: imp(d.adj(p, v), ordered(O, p)), pat=lambda p: d.f(p, v)))
            box['case'] = 'ready'
            return True
        V.assume(V.exists(0, N, lambda p: And(d.adj(p, v), Not(ordered(O, p)))))
        box['case'] = 'waits'
        return False
    V.contracts[G + '_node_is_ready'] = is_ready

    def after(V, L):
        """Ghost updates for one round."""
        case, node = box.pop('case', 'known'), Z(L['node'])
        H, n = gh.head, Z(box['Q'].n)
        T = H + n
        D = succ.n(node)
        if case == 'known':
            gh.update(V, head=H + 1)
            return
        log, where, cost = [z3.Const(fresh_name(q), A1) for q in ('log', 'where', 'cost')]
        new_at = (lambda i: H - i) if case == 'ready' else (lambda i: T + i)       # place of successor i
        lo, hi = (H + 1 - D, H + 1) if case == 'ready' else (T, T + D)              # places of the new entries
        idx = (lambda p: H - p) if case == 'ready' else (lambda p: p - T)
        cst = (lambda p: gh.cost[H + 1] - WS(node, H + 1 - p)) if case == 'ready' else (lambda p: gh.cost[T] + WS(node, p - T))
        V.assume(All([None], lambda p: log[p] == z3.If(And(lo <= p, p < hi), succ.at(node, idx(p)), gh.log[p]), pat=lambda p: log[p]))
        inside = (lambda p: And(lo <= p, p < hi)) if case == 'ready' else (lambda p: And(lo < p, p <= hi))
        V.assume(All([None], lambda p: cost[p] == z3.If(inside(p), cst(p), gh.cost[p]), pat=lambda p: cost[p]))
        V.assume(All([None], lambda v: where[v] == z3.If(And(v >= 0, v < N, d.adj(node, v)), new_at(succ.pos(node, v)), gh.where[v]), pat=lambda v: where[v]))
        kw = dict(log=log, where=where, cost=cost, head=lo if case == 'ready' else H + 1)
        if case == 'ready':
            kw['place'] = z3.Store(gh.place, node, Z(box['O'].n))
        gh.update(V, **kw)

    def variant(V, L):
        Q, O = V.seq_of(L['queue']), V.seq_of(L['order'])
        V.assume(Z(O.n) <= N)            # pigeonhole: different nodes below N
        return N - Z(O.n), gh.cost[gh.head + Z(Q.n)] - gh.cost[gh.head]
    V.loops[G + 'topological_sorting#0'] = LoopSpec(inv, after_body=after, variant=variant)
    r = V.expect_ok('topological_sorting', G + 'topological_sorting', [g.array])
    O = V.seq_of(r)
    v = V.int('v')
    V.assume(d.node(v))
    V.check('induction on the rank: a node whose predecessors are all in the order is in the order', imp(V.formula(All((0, N), lambda p: imp(d.adj(p, v), ordered(O, p)), pat=lambda p: d.f(p, v))), ordered(O, v)))
    V.assume(All((0, N), lambda v: ordered(O, v), pat=lambda v: gh.place[v]))
    V.check('every node', ordered(O, v))
    V.check('no other entries', All((0, O.n), lambda i: d.node(Z(O[i])), pat=lambda i: Z(O[i])))
    V.check('each once', All([(0, O.n), (0, O.n)], lambda i, j: imp(Z(O[i]) == Z(O[j]), i == j), pat=lambda i, j: [[Z(O[i]), Z(O[j])]]))
    a, b = V.int('a'), V.int('b')
    V.assume(And(g.node(a), g.node(b), g.adj(a, b)))
    V.check('an edge leads forward in the order unless it lies on a loop', Or(gh.place[a] < gh.place[b], d.REACH(b, a)), hints=[d.f(a, b), gh.place[a], gh.place[b]])
    V.check('the graph is not changed', g.array.at(a, b) == g.f(a, b))


class Mention(GhostCell):
    """Ghost: end y is mentioned at position first[y] of the list; entry j was made for the connection wx[j] -> wy[j]."""

    def __init__(self, V):
        f = lambda V: [z3.Const(fresh_name('mention'), A1) for _ in range(3)]
        super().__init__(V, f(V), f)

    def note(self, V, seq, x, y):
        first, wx, wy = self.value
        last = Z(seq.n) - 1
        self.set(V, [z3.Store(first, y, last), z3.Store(wx, last, x), z3.Store(wy, last, y)])

    def named(self, s, y, block):
        """The entry for end y is the block."""
        if const_int(s.n) == 0:
            return z3.BoolVal(False)
        j = self.value[0][y]
        return And(j >= 0, j < Z(s.n), s[j].term == block)

    def only(self, s, ok):
        """ok(x, y, block) for every entry."""
        if const_int(s.n) == 0:
            return True
        f, wx, wy = self.value
        return All((0, s.n), lambda j: And(s[j].term >= 0, ok(wx[j], wy[j], s[j].term)), pat=lambda j: s[j].term)


@U.unit('input neighbours', claim='exactly the owners of the outputs that the inputs of a block are connected to, except the block itself', time_limit=240)
def input_neighbours(V):
    w = Blocks(V)
    b = w.block('b')
    t = b.term
    INP, n = w.end_of['inputs'], w.size['inputs'](t)
    m = Mention(V)
    ok = lambda x, y, o: And(w.member['inputs'](y), w.own(y) == t, x >= 0, w.inc0[y] == x, w.own(x) == o, o != t)
    wanted = lambda y: And(w.inc0[y] >= 0, w.own(w.inc0[y]) != t, w.own(w.inc0[y]) >= 0)

    def inv(V, L):
        s = V.collecting[-1].seq
        return [('only neighbours', m.only(s, ok)),
                ('all so far', All((0, L.k), lambda i: imp(wanted(INP(t, i)), m.named(s, INP(t, i), w.own(w.inc0[INP(t, i)]))), pat=lambda i: INP(t, i)))]

    def note(V, L):
        y = INP(t, L.k - 1)
        if const_int(V.collecting[-1].seq.n) != 0 and V.decide(wanted(y)):
            m.note(V, V.collecting[-1].seq, w.inc0[y], y)
    V.loops[BL + 'input_connections#0'] = LoopSpec(inv, after_body=note)
    s = V.seq_of(V.expect_ok('collect', V.builtin('list'), [V.expect_ok('input_neighbors', BL + 'input_neighbors', [b])]))
    V.check('only neighbours', m.only(s, ok))
    y = V.int('y')
    V.assume(And(y >= 0, w.member['inputs'](y), w.own(y) == t, wanted(y)))
    V.check('every neighbour', m.named(s, y, w.own(w.inc0[y])))
    w.state('unchanged', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])


@U.unit('output neighbours', claim='exactly the owners of the inputs that the outputs of a block are connected to, except the block itself', time_limit=240)
def output_neighbours(V):
    w = Blocks(V)
    b = w.block('b')
    t = b.term
    OUTP, n, po = w.end_of['outputs'], w.size['outputs'](t), w.place['outputs']
    m = Mention(V)
    place = {}
    ok = lambda x, y, o: And(w.member['outputs'](x), w.own(x) == t, w.linked(x, y), w.own(y) == o, o != t)
    wanted = lambda y: And(w.own(y) != t, w.own(y) >= 0)

    def done(s, i):
        return All([(0, i), (0, None)], lambda o, y: imp(w.linked(OUTP(t, o), y), wanted(y), m.named(s, y, w.own(y))), pat=lambda o, y: [[w.linked(OUTP(t, o), y)]])

    def outs(V, L):
        place['i'] = L.k
        s = V.collecting[-1].seq
        return [('only neighbours', m.only(s, ok)), ('all so far', done(s, L.k))]
    V.loops[BL + 'output_connections#0'] = LoopSpec(outs)

    def dsts(V, L):
        s, e = V.collecting[-1].seq, L.seq
        return [('only neighbours', m.only(s, ok)), ('all before', done(s, place['i'])),
                ('all so far', All((0, L.k), lambda k: imp(wanted(e[k].term), m.named(s, e[k].term, w.own(e[k].term))), pat=lambda k: e[k].term))]

    def note(V, L):
        y = L.seq[L.k - 1].term
        if const_int(V.collecting[-1].seq.n) != 0 and V.decide(wanted(y)):
            m.note(V, V.collecting[-1].seq, OUTP(t, place['i']), y)
    V.loops[BL + 'output_connections#1'] = LoopSpec(dsts, after_body=note)
    s = V.seq_of(V.expect_ok('collect', V.builtin('list'), [V.expect_ok('output_neighbors', BL + 'output_neighbors', [b])]))
    V.check('only neighbours', m.only(s, ok))
    x, y = V.int('x'), V.int('y')
    V.assume(And(x >= 0, y >= 0, w.member['outputs'](x), w.own(x) == t, w.linked(x, y), wanted(y)))
    V.check('every neighbour', m.named(s, y, w.own(y)))
    w.state('unchanged', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])


class Network:
    """Blocks (numbered) with arbitrary lists of input and output neighbours."""

    def __init__(self, V):
        self.V = V
        self.Block = V.lookup('klang.block.Block')
        self.at, self.n, self.pos = {}, {}, {}
        for k in ('out', 'in'):
            f = lambda name, *s: z3.Function(fresh_name(k + name), *s)
            at, n = f(' neighbour', I, I, I), f(' neighbours', I, I)
            self.at[k], self.n[k] = at, n
            V.assume(All([(0, None)], lambda b: n(b) >= 0, pat=lambda b: n(b)))
            V.assume(All([(0, None), (0, None)], lambda b, i: imp(i < n(b), And(at(b, i) >= 0, at(b, i) != b)), pat=lambda b, i: at(b, i)))

    def ref(self, t):
        return Ref(t, self.Block)

    def kind(self):
        return KRef(self.Block)


@U.unit('network closure', time_limit=400, claim='the blocks found contain the starting blocks and all neighbours of blocks found, each once, and no block outside any set that is closed like this; exactly the neighbour relations of these blocks are edges; the traversal ends')
def closure(V):
    w = Network(V)
    at, n = w.at, w.n
    M = V.int('number of blocks')
    NUM = z3.Function('number of block', I, I)
    V.assume(All([(0, None)], lambda b: And(NUM(b) >= 0, NUM(b) < M), pat=lambda b: NUM(b)))
    P = z3.Function('closed set', I, Bo)
    start = V.seq('start', w.kind())
    V.assume(All((0, start.n), lambda i: And(start[i].term >= 0, P(start[i].term)), pat=lambda i: start[i].term))
    for k in ('out', 'in'):
        V.assume(All([(0, None), (0, None)], lambda b, i, k=k: imp(P(b), i < n[k](b), P(at[k](b, i))), pat=lambda b, i, k=k: at[k](b, i)))
    box = {}

    class Ghost(GhostCell):
        """queue = log[head .. head + n); where: a place of a block in the log; place: position among the blocks found; origin: how an edge was found."""

        def __init__(self, V):
            f = lambda V: dict(head=z3.Int(fresh_name('head')), log=z3.Const(fresh_name('log'), A1), where=z3.Const(fresh_name('where'), A1), place=z3.Const(fresh_name('place'), A1))
            super().__init__(V, f(V), f)

        def __getattr__(self, n):
            return self.__dict__['value'][n]

        def update(self, V, **kw):
            self.set(V, dict(self.value, **kw))
    gh = Ghost(V)
    V.assume(gh.head == 0)
    V.assume(All((0, start.n), lambda i: And(gh.log[i] == start[i].term, gh.where[start[i].term] >= 0, gh.where[start[i].term] < Z(start.n), start[gh.where[start[i].term]].term == start[i].term), pat=lambda i: start[i].term))

    def found(s, b):
        if const_int(s.n) == 0:
            return z3.BoolVal(False)
        return And(gh.place[b] >= 0, gh.place[b] < Z(s.n), s[gh.place[b]].term == b)

    def queued(s, b):
        return And(gh.where[b] >= gh.head, gh.where[b] < gh.head + Z(s.n), gh.log[gh.where[b]] == b)

    def isedge(E, a, b):
        return E.mem((w.ref(a), w.ref(b))) if E.items is None else z3.BoolVal(False)

    def neighbour(k, b, c, hi=None):
        """c is among the (first hi) neighbours of b."""
        return V.exists(0, n[k](b) if hi is None else hi, lambda i: at[k](b, i) == c)

    def inv(V, L, cur=None, outs=None, ins=None):
        """cur: the block looked at, with its first outs / ins neighbours done."""
        Q, S, E = V.seq_of(L['queue']), V.seq_of(L['vertices']), L['edges']
        box.update(Q=Q, S=S)
        H, T = gh.head, gh.head + Z(Q.n)
        upto = lambda k, b: n[k](b) if cur is None else z3.If(b == cur, outs if k == 'out' else ins, n[k](b))
        r = [('queue', All((0, Q.n), lambda i: And(Q[i].term == gh.log[H + i], Q[i].term >= 0), pat=lambda i: Q[i].term)),
             ('window', All((H, T), lambda p: And(gh.log[p] >= 0, P(gh.log[p])), pat=lambda p: gh.log[p])),
             ('head', H >= 0),
             ('starting blocks are found or queued', All((0, start.n), lambda i: Or(found(S, start[i].term), queued(Q, start[i].term)), pat=lambda i: start[i].term))]
        if const_int(S.n) != 0:
            r += [('blocks, each once, in the closed set', All((0, S.n), lambda i: And(S[i].term >= 0, gh.place[S[i].term] == i, P(S[i].term)), pat=lambda i: S[i].term))]
        for k in ('out', 'in'):
            r.append(('%s neighbours of blocks found are found or queued' % k, All([(0, None), (0, None)], lambda b, i, k=k: imp(found(S, b), i < upto(k, b), Or(found(S, at[k](b, i)), queued(Q, at[k](b, i)))), pat=lambda b, i, k=k: at[k](b, i))))
        r += [('edges to output neighbours', All([(0, None), (0, None)], lambda b, i: imp(found(S, b), i < upto('out', b), isedge(E, b, at['out'](b, i))), pat=lambda b, i: at['out'](b, i))),
              ('edges from input neighbours', All([(0, None), (0, None)], lambda b, i: imp(found(S, b), i < upto('in', b), isedge(E, at['in'](b, i), b)), pat=lambda b, i: at['in'](b, i)))]
        if E.items is None:
            r.append(('no other edges', All([None, None], lambda a, b: imp(isedge(E, a, b), And(a >= 0, b >= 0, Or(And(found(S, a), neighbour('out', a, b)), And(found(S, b), neighbour('in', b, a))))), pat=lambda a, b: isedge(E, a, b))))
        return r

    def pushed(V, L):
        """Ghost: what was appended to the queue in this round."""
        Q = V.seq_of(L['queue'])
        T = gh.head + Z(Q.n) - 1
        b = Q[Z(Q.n) - 1].term
        gh.update(V, log=z3.Store(gh.log, T, b), where=z3.Store(gh.where, b, T))

    def outer(V, L):
        return inv(V, L)

    def handler(k):
        def h(V, a):
            b = a['block'].term
            V.check('neighbours of a block', b >= 0)
            if box.get('cur') is None:
                # the block was taken from the queue and listed
                box['cur'] = b
                S = box['S']
                gh.update(V, head=gh.head + 1, place=z3.Store(gh.place, b, Z(S.n)))
            box[k] = b
            return V.mklist(Seq(n[k](b), lambda i: w.ref(at[k](b, Z(i))), None, w.kind()))
        return h
    V.contracts[BL + 'output_neighbors'] = handler('out')
    V.contracts[BL + 'input_neighbors'] = handler('in')
    q = EX + 'traverse_network'
    V.loops[q + '#1'] = LoopSpec(lambda V, L: inv(V, L, box['cur'], L.k, z3.IntVal(0)), after_body=pushed)
    V.loops[q + '#2'] = LoopSpec(lambda V, L: inv(V, L, box['cur'], n['out'](box['cur']), L.k), after_body=pushed)

    def after(V, L):
        if box.pop('cur', None) is None:
            gh.update(V, head=gh.head + 1)

    def variant(V, L):
        Q, S = V.seq_of(L['queue']), V.seq_of(L['vertices'])
        V.assume(Z(S.n) <= M)           # pigeonhole: different numbers below M
        return M - Z(S.n), Q.n
    V.loops[q + '#0'] = LoopSpec(outer, after_body=after, variant=variant)
    S, E = V.expect_ok('traverse_network', q, [V.mklist(start)])
    S = V.seq_of(S)
    i = V.int('i')
    V.assume(And(i >= 0, i < start.n))
    V.check('every starting block', found(S, start[i].term))
    if const_int(S.n) == 0:
        return
    b, j = V.int('b'), V.int('j')
    V.assume(And(b >= 0, j >= 0, found(S, b)))
    for k in ('out', 'in'):
        V.check('every %s neighbour' % k, imp(j < n[k](b), found(S, at[k](b, j))))
    V.check('no other block', P(b))
    V.check('each once', All([(0, S.n), (0, S.n)], lambda i, j: imp(i != j, S[i].term != S[j].term), pat=lambda i, j: [[S[i].term, S[j].term]]))
    V.check('edges to output neighbours', imp(j < n['out'](b), isedge(E, b, at['out'](b, j))))
    V.check('edges from input neighbours', imp(j < n['in'](b), isedge(E, at['in'](b, j), b)))
    x, y = V.int('x'), V.int('y')
    V.check('no other edges', imp(isedge(E, x, y), Or(And(found(S, x), neighbour('out', x, y)), And(found(S, y), neighbour('in', y, x)))))


@U.unit('execution order', time_limit=300, claim='the order is a rearrangement of the blocks of the network: each once and nothing else; a block comes after the blocks feeding it except across relations on loops')
def order(V):
    w = Network(V)
    start = V.seq('start', w.kind())
    V.assume(All((0, start.n), lambda i: start[i].term >= 0, pat=lambda i: start[i].term))
    S = V.seq('vertices', w.kind())
    place = z3.Function('place of block', I, I)
    V.assume(All((0, S.n), lambda i: And(S[i].term >= 0, place(S[i].term) == i), pat=lambda i: S[i].term))
    isin = lambda b: And(b >= 0, place(b) >= 0, place(b) < Z(S.n), S[place(b)].term == b)
    EDGE = z3.Function('edge', I, I, Bo)
    V.assume(All([None, None], lambda a, b: imp(EDGE(a, b), And(isin(a), isin(b))), pat=lambda a, b: EDGE(a, b)))
    calls = []

    def traverse(V, a):
        s = V.seq_of(a['blocks'])
        V.check('traversal starts at the given blocks', Z(s.n) == Z(start.n))
        if const_int(s.n) != 0:
            i = V.int('i')
            V.check('traversal starts at the given blocks, in order', imp(i >= 0, i < start.n, s[i].term == start[i].term))
        E = SSet(None, lambda e: EDGE(e[0].term, e[1].term), KTuple(w.kind(), w.kind()))
        V.alloc(E)
        calls.append('traverse')
        return (V.mklist(S), E)
    V.contracts[EX + 'traverse_network'] = traverse
    g = Matrix(V, 'graph', Z(S.n))
    REACH = z3.Function('reach', I, I, Bo)
    O = V.seq('order', KInt())
    PL = z3.Function('place in order', I, I)

    def matrix(V, a):
        e = V.seq_of(a['edges'])
        n = Z(a['order'])
        V.check('the matrix has a row for each block', n == Z(S.n))
        V.check('at least one edge', Z(e.n) >= 1)
        V.check('edges between numbered blocks', All((0, e.n), lambda i: And(Z(e[i][0]) >= 0, Z(e[i][0]) < n, Z(e[i][1]) >= 0, Z(e[i][1]) < n)))
        V.check('directed', a['directed'] is True)
        V.assume(All([(0, S.n), (0, S.n)], lambda i, j: imp(g.adj(i, j), V.exists(0, e.n, lambda q: And(Z(e[q][0]) == i, Z(e[q][1]) == j))), pat=lambda i, j: g.f(i, j)))
        V.assume(All((0, e.n), lambda k: g.adj(Z(e[k][0]), Z(e[k][1])), pat=lambda k: [Z(e[k][0]), Z(e[k][1])]))
        x, y = V.int('x'), V.int('y')
        V.assume(And(x >= 0, y >= 0, x < S.n, y < S.n))
        V.check('edges of the matrix are edges of the network', imp(g.adj(x, y), EDGE(S[x].term, S[y].term)), hints=[S[x].term, S[y].term])
        if hasattr(e, 'src') or True:
            a_, b_ = V.int('a'), V.int('b')
            V.assume(EDGE(a_, b_))
            V.check('edges of the network are edges of the matrix', g.adj(place(a_), place(b_)), hints=[place(a_), place(b_)])
        calls.append('matrix')
        return g.array
    V.contracts[G + 'graph_matrix'] = matrix

    def sort(V, a):
        x, y = V.int('x'), V.int('y')
        V.check('the whole graph is sorted', imp(g.node(x), g.node(y), a['graph'].at(x, y) == g.f(x, y)))
        V.assume(Z(O.n) == Z(S.n))
        V.assume(All((0, O.n), lambda i: And(g.node(Z(O[i])), PL(Z(O[i])) == i), pat=lambda i: Z(O[i])))
        V.assume(All((0, S.n), lambda v: And(PL(v) >= 0, PL(v) < Z(O.n), Z(O[PL(v)]) == v), pat=lambda v: PL(v)))
        V.assume(All([(0, S.n), (0, S.n)], lambda i, j: imp(g.adj(i, j), Or(PL(i) < PL(j), REACH(j, i))), pat=lambda i, j: g.f(i, j)))
        calls.append('sort')
        return V.mklist(O)
    V.contracts[G + 'topological_sorting'] = sort
    r = V.seq_of(V.expect_ok('determine_execution_order', EX + 'determine_execution_order', [V.mklist(start)]))
    V.check('as many entries as blocks', Z(r.n) == Z(S.n))
    b = V.int('b')
    V.assume(isin(b))
    if const_int(r.n) == 0:
        V.check('no block is missing', False)
        return
    V.check('only blocks of the network', All((0, r.n), lambda i: isin(r[i].term), pat=lambda i: r[i].term))
    V.check('each once', All([(0, r.n), (0, r.n)], lambda i, j: imp(r[i].term == r[j].term, i == j), pat=lambda i, j: [[r[i].term, r[j].term]]))
    at = (lambda v: PL(place(v))) if 'sort' in calls else (lambda v: place(v))
    V.check('every block of the network', And(at(b) >= 0, at(b) < Z(r.n), r[at(b)].term == b))
    c = V.int('c')
    V.assume(EDGE(b, c))
    V.check('a block comes after the blocks feeding it, except on loops', Or(at(b) < at(c), REACH(place(c), place(b))), hints=[g.f(place(b), place(c))])
