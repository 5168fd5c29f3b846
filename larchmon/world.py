"""Drives the real liblarch through a history of operations and keeps the
reference model in step.

An operation is a JSON-able list [kind, ...].  `World.apply` executes one
against the public API and returns an Outcome; whether an operation is legal,
refused or meaningless is decided by the model alone, so that a history means
the same thing on every tree it is replayed on.
"""
import contextlib
import io
import traceback

from . import env
from .filters import FILTERS, by_param, passes
from .model import Model

liblarch = env.load()
Tree, TreeNode = liblarch.Tree, liblarch.TreeNode


class LNode(TreeNode):
    def __init__(self, node_id, colors=(), parent=None):
        TreeNode.__init__(self, node_id, parent)
        self.colors = set(colors)
        self.version = 0

    def label(self):
        return "%s|%s|%d" % (
            self.get_id(), ','.join(sorted(self.colors)), self.version)


class Outcome(object):
    """status: ok | refused (model says: must be refused) | skipped"""
    __slots__ = ('status', 'exc', 'where', 'value', 'touched', 'structural',
                 'noop', 'view')

    def __init__(self, status, exc=None, where=None, value=None,
                 touched=(), structural=True, noop=False, view=None):
        self.status = status
        self.exc = exc
        self.where = where
        self.value = value
        self.touched = touched      # nodes whose refresh was requested
        self.structural = structural  # could the view structure change?
        self.noop = noop            # must have no effect at all
        self.view = view            # the request concerns this view only


NOOP = {'noop': True}


class VState(object):
    def __init__(self, key, name, view):
        self.key = key
        self.name = name
        self.view = view
        self.filters = []      # names applied, in order
        self.observers = []


class SutError(Exception):
    pass


class World(object):
    def __init__(self):
        self.tree = Tree()
        self.model = Model()
        self.views = {}
        self.counts = {}
        self.params = {}       # filter name -> parameters in force
        self.bank = {}         # name of a custom filter -> filter it copies
        self.actions = []      # actions queued for nodes
        self.removed = {}      # id -> node object taken out of the tree
        self.nodes = {}        # id -> node object we handed to the tree
        self.fresh_ops = 0
        self.in_sync = True
        self.desync = None
        self.listeners = []    # objects with before_op/after_op/view_created
        self.fill_bank(self.tree)
        self.params.update({n: v[1] for n, v in FILTERS.items()})
        self.params.update({'par1': None, 'par2': None})

    # filters ----------------------------------------------------------
    def filter_func(self, name):
        if name.startswith('cust'):
            return FILTERS[self.bank[name]][0]
        return by_param if name.startswith('par') else FILTERS[name][0]

    def node_passes(self, name, i):
        if name.startswith('cust') and self.bank.get(name) is None:
            return False        # not in the bank: nothing is shown
        return passes(self.filter_func(name), self.params.get(name),
                      self.tree.get_node(i))

    def is_flat(self, vs):
        return any((self.params.get(f) or {}).get('flat') for f in vs.filters)

    # running ----------------------------------------------------------
    def call(self, fn, *args, **kw):
        """Call the code under test, keeping its chatter off our stdout."""
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*args, **kw)

    def apply(self, op):
        handler = getattr(self, 'op_' + op[0])
        try:
            plan = handler(*op[1:])
        except SutError:
            raise
        if plan is None:
            return Outcome('skipped')
        status, thunk, commit = plan[:3]
        extra = plan[3] if len(plan) > 3 else {}
        out = Outcome(status, touched=extra.get('touched', ()),
                      structural=extra.get('structural', True),
                      noop=extra.get('noop', False), view=extra.get('view'))
        todo = [commit] if commit is not None else []

        def finish():
            if todo:
                todo.pop()()
        self.finish = finish    # for those who look at the model before the end
        for lis in self.listeners:
            lis.before_op(op, out)
        try:
            out.value = self.call(thunk)
        except Exception as exc:      # judged by the monitors
            out.exc = exc
            tb = traceback.extract_tb(exc.__traceback__)
            out.where = '%s:%s' % (tb[-1].filename.rsplit('/', 2)[-1], tb[-1].name)
        if not (status == 'ok' and out.exc is not None):
            finish()
        for lis in self.listeners:
            lis.after_op(op, out)
        return out

    # operations: tree ---------------------------------------------------
    def _add(self, i, node, parent, colors, rels, pen, cen):
        m = self.model
        extra = []
        for kind, other in rels:
            pair = (i, other) if kind == 'c' else (other, i)
            if other != i and (cen if kind == 'c' else pen):
                extra.append(pair + (True,))
        must, may = m.completable(i, extra)
        must = [e for e in must if self._edge_enabled(e, i, pen, cen)]
        may = [e for e in may if self._edge_enabled(e, i, pen, cen)]
        refused = False
        explicit = None
        if parent is not None:
            if parent == i:
                refused = True
            elif m.has(parent):
                # would the late children of i make `parent` a descendant?
                kids = [c for p, c in must + may if p == i]
                circular = any(k == parent or parent in m.descendants(k)
                               for k in kids)
                if circular and not (pen and m.cen[parent]):
                    return None     # left open by the specification
                if pen and m.cen[parent]:
                    if circular:
                        if all((i, k) in must for k in kids) and len(must) == len(kids):
                            refused = True
                        else:
                            return None     # left open by the specification
                    explicit = (parent, i)
            elif pen:
                extra.append((parent, i, True))
            else:
                return None         # left open by the specification
        if refused and rels and i in self.removed and node is self.removed[i]:
            return None     # what becomes of the declarations is left open

        def thunk():
            for kind, other in rels:
                (node.add_child if kind == 'c' else node.add_parent)(other)
            self.tree.add_node(node, parent)

        def commit():
            if refused:
                return
            m.insert(i, colors, pen, cen)
            wanted = list(must) + ([explicit] if explicit and explicit not in must else [])
            m.pending = [x for x in m.pending + [
                e for e in extra if e not in m.pending]
                if not (i in x[:2] and m.has(x[0]) and m.has(x[1]))]
            if self._compatible(wanted + may) and not may:
                for e in wanted:
                    m.link(*e)
            else:
                self._adopt(wanted, may)
            self.nodes[i] = node
            self.removed.pop(i, None)
        return ('refused' if refused else 'ok', thunk, commit,
                {'touched': (i,)})

    def _edge_enabled(self, edge, i, pen, cen):
        p, c = edge
        return ((cen if p == i else self.model.cen[p]) and
                (pen if c == i else self.model.pen[c]))

    def _compatible(self, edges):
        """Can all these edges be added to the model without a cycle?"""
        m = self.model
        adj = {x: list(m.children[x]) for x in m.children}
        for p, c in edges:
            adj[p].append(c)
        state = {}

        def dfs(x):
            state[x] = 1
            for y in adj[x]:
                if state.get(y) == 1 or (y not in state and not dfs(y)):
                    return False
            state[x] = 2
            return True
        return all(x in state or dfs(x) for x in adj)

    def _adopt(self, wanted, may):
        """The specification leaves a choice: follow the real tree where its
        choice is admissible, otherwise keep the full set (and disagree)."""
        m = self.model
        real = []
        for p, c in wanted + may:
            if self.tree.has_node(c) and p in self.tree.get_node(c).get_parents():
                real.append((p, c))
        if not self._compatible(real):
            return
        for e in wanted:
            if e not in real and self._compatible(real + [e]):
                real.append(e)      # refused without need: must be there
        for e in real:
            m.link(*e)

    def op_add(self, i, parent, colors, rels, ctor_parent=None, dis=''):
        m = self.model
        if m.has(i):
            other = LNode(i, colors)
            return ('ok', (lambda: self.tree.add_node(other, parent)), None,
                    NOOP)
        rels = [tuple(r) for r in rels]
        node = LNode(i, colors, parent=ctor_parent)
        pen, cen = 'p' not in dis, 'c' not in dis
        if not pen:
            node.set_parents_enabled(False)
        if not cen:
            node.set_children_enabled(False)
        if ctor_parent is not None:
            if not pen:
                return None
            rels = [('p', ctor_parent)] + rels
            plan = self._add(i, node, parent, colors, rels, pen, cen)
            return plan
        return self._add(i, node, parent, colors, rels, pen, cen)

    def op_readd(self, i, parent, rels):
        m = self.model
        if m.has(i) or i not in self.removed:
            return None
        node = self.removed[i]
        return self._add(i, node, parent, set(node.colors),
                         [tuple(r) for r in rels],
                         node.has_parents_enabled(), node.has_children_enabled())

    def op_del(self, i, recursive):
        m = self.model
        if not m.has(i):
            return ('ok', (lambda: self.tree.del_node(i, recursive)), None,
                    NOOP)

        def commit():
            before = set(m.ids())
            m.delete(i, recursive)
            for gone in before - set(m.ids()):
                self.removed[gone] = self.nodes.pop(gone)
        return 'ok', (lambda: self.tree.del_node(i, recursive)), commit

    def op_move(self, i, parent, how='tree'):
        m = self.model
        if not m.has(i):
            return ('ok', (lambda: self.tree.move_node(i, parent)), None,
                    NOOP)
        if how == 'tree':
            def thunk():
                return self.tree.move_node(i, parent)
        else:
            def thunk():
                return self.tree.get_node(i).set_parent(parent)
        if parent == i or not m.pen[i]:
            return 'ok', thunk, None, NOOP
        if parent is not None and m.has(parent):
            if not m.cen[parent]:
                return 'ok', thunk, None, NOOP
            if m.closes_cycle(parent, i):
                return 'refused', thunk, None

        def commit():
            m.forget_parents(i)
            if parent is not None and m.has(parent):
                m.link(parent, i)
                for p in list(m.parents[i]):
                    if p != parent:
                        m.unlink(p, i)
            else:
                for p in list(m.parents[i]):
                    m.unlink(p, i)
                if parent is not None:
                    m.declare(parent, i)
        return 'ok', thunk, commit

    def op_addp(self, i, p, how='tree'):
        m = self.model
        if not m.has(i) and how == 'tree':
            return ('ok', (lambda: self.tree.add_parent(i, p)), None,
                    NOOP)
        if not m.has(i) or p is None:
            return None
        if how == 'child' and not m.has(p):
            return None
        if how == 'tree':
            def thunk():
                return self.tree.add_parent(i, p)
        elif how == 'node':
            def thunk():
                return self.tree.get_node(i).add_parent(p)
        else:
            def thunk():
                return self.tree.get_node(p).add_child(i)
        if p == i or not m.pen[i] or p in m.parents[i]:
            return 'ok', thunk, None, NOOP
        if not m.has(p):
            return 'ok', thunk, (lambda: m.declare(p, i))
        if not m.cen[p]:
            return 'ok', thunk, None, NOOP
        if m.closes_cycle(p, i):
            return 'refused', thunk, None
        return 'ok', thunk, (lambda: m.link(p, i))

    def op_addlate(self, p, c):
        """p.add_child(c) where c does not exist yet"""
        m = self.model
        if not m.has(p) or m.has(c) or not m.cen[p]:
            return None
        return ('ok', (lambda: self.tree.get_node(p).add_child(c)),
                (lambda: m.declare(p, c)))

    def op_rmp(self, i, p):
        m = self.model
        if not m.has(i) or p is None:
            return None
        if p not in m.parents[i] and any(x[:2] == (p, i) for x in m.pending):
            return None

        def commit():
            if p in m.parents[i]:
                m.unlink(p, i)
                m.pending = [x for x in m.pending if x[:2] != (p, i)]
        return ('ok', (lambda: self.tree.get_node(i).remove_parent(p)), commit)

    def op_enable(self, i, which, flag):
        m = self.model
        if not m.has(i):
            return None
        if any(i in x[:2] for x in m.pending):
            return None         # late relationships of i: left open

        def thunk():
            node = self.tree.get_node(i)
            (node.set_parents_enabled if which == 'p'
             else node.set_children_enabled)(flag)

        def commit():
            if which == 'p':
                if not flag:
                    for p in list(m.parents[i]):
                        m.unlink(p, i)
                m.pen[i] = flag
            else:
                if not flag:
                    for c in list(m.children[i]):
                        m.unlink(i, c)
                m.cen[i] = flag
        return 'ok', thunk, commit

    # operations: content --------------------------------------------------
    def _flip(self, i, c):
        node = self.tree.get_node(i)
        node.colors ^= {c}
        node.version += 1
        self.model.colors[i] = set(node.colors)

    def op_color(self, i, c, how='modified', prio='low'):
        if not self.model.has(i):
            return None

        def thunk():
            self._flip(i, c)
            if how == 'modified':
                self.tree.get_node(i).modified()
            else:
                self.tree.refresh_node(i, prio)
        return 'ok', thunk, None, {'touched': (i,)}

    def op_refresh(self, i):
        return ('ok', (lambda: self.tree.refresh_node(i)), None,
                {'touched': (i,) if self.model.has(i) else (),
                 'structural': False})

    def op_refresh_all(self, via=None):
        """via: the tree, a view, the main view or (a request for the current
        state of) the main view"""
        fn = self.tree.refresh_all
        if via == 'main':
            fn = self.tree.get_main_view().refresh_all
        elif via == 'state':
            fn = self.tree.get_main_view().get_current_state
        elif via in self.views:
            fn = self.views[via].view.refresh_all
        return ('ok', fn, None,
                {'touched': tuple(self.model.ids()), 'structural': False})

    def op_touch(self, i, version, how='modified'):
        """Something else about the node changes."""
        if not self.model.has(i):
            return None

        def thunk():
            node = self.tree.get_node(i)
            node.version = version
            if how == 'modified':
                node.modified()
            else:
                self.tree.refresh_node(i)
        return 'ok', thunk, None, {'touched': (i,), 'structural': False}

    def op_bulk(self, flips, how):
        """Several nodes change silently, then everything is refreshed."""
        flips = [(i, c) for i, c in flips if self.model.has(i)]
        if not flips:
            return None
        ids = list(dict.fromkeys(i for i, _ in flips))

        def thunk():
            for i, c in flips:
                self._flip(i, c)
            if how == 'all':
                self.tree.refresh_all()
            else:
                for i in (ids if how == 'fwd' else reversed(ids)):
                    self.tree.refresh_node(i)
        return ('ok', thunk, None,
                {'touched': tuple(self.model.ids()) if how == 'all' else tuple(ids)})

    # operations: views ----------------------------------------------------
    def op_view(self, key, name, filters):
        """A new view; filters == [] means an unfiltered one."""
        if key in self.views or (name is not None and any(
                v.name == name for v in self.views.values())):
            return None

        def thunk():
            if not filters:
                return self.tree.get_viewtree(name=name)
            view = self.tree.get_viewtree(name=name, refresh=False)
            vs = self._register(key, name, view)
            for f in filters[:-1]:
                view.apply_filter(f, refresh=False)
            vs.filters = list(dict.fromkeys(filters))
            view.apply_filter(filters[-1])
            if len(vs.filters) < len(filters):
                view.refresh_all()
            return view

        def thunk2():
            view = thunk()
            if key not in self.views:
                self._register(key, name, view)
            return view
        return 'ok', thunk2, None, {'view': key}

    def _register(self, key, name, view):
        vs = VState(key, name, view)
        self.views[key] = vs
        for lis in self.listeners:
            lis.view_created(vs)
        return vs

    def _param_clash(self, key, filters):
        """A parametrised filter is shared by the whole bank: who changes its
        parameters is the only view that uses it, or see op_share."""
        for f in filters:
            if f.startswith('par'):
                for k, vs in self.views.items():
                    if k != key and f in vs.filters:
                        return True
        return False

    def op_apply(self, key, f, params=None, reset=False):
        vs = self.views.get(key)
        if vs is None or (params and self._param_clash(key, [f])):
            return None
        if f.startswith('par') and params is None and self.params[f] is None:
            return None

        def thunk():
            if reset:
                vs.filters = []
            if params:
                self.params[f] = dict(params)
            if f not in vs.filters:
                vs.filters = vs.filters + [f]
            kw = {}
            if params:
                kw['parameters'] = dict(params)
            if reset:
                kw['reset'] = True
            vs.view.apply_filter(f, **kw)
        # reset + already applied + nothing else: still one new filter, so
        # the view is rebuilt in every case but "already there, no reset"
        return 'ok', thunk, None, {'view': key}

    def op_nofilter(self, key, name, params, reset, refresh):
        """Parameters for a filter that is not in the bank."""
        vs = self.views.get(key)
        if vs is None or self.bank.get(name) is not None:
            return None

        def thunk():
            vs.view.apply_filter(name, parameters=dict(params), reset=reset, refresh=refresh)
        return 'refused', thunk, None

    def op_share(self, f, params, keys):
        """Several views apply a filter with the same parameters, in turn."""
        keys = [k for k in keys if k in self.views]
        keys += sorted(k for k, v in self.views.items() if f in v.filters and k not in keys)
        if not keys:
            return None

        def thunk():
            self.params[f] = dict(params)
            for k in keys:
                vs = self.views[k]
                if f not in vs.filters:
                    vs.filters = vs.filters + [f]
                vs.view.apply_filter(f, parameters=dict(params))
        return 'ok', thunk, None

    def op_unapply(self, key, f):
        vs = self.views.get(key)
        if vs is None:
            return None

        def thunk():
            vs.filters = [x for x in vs.filters if x != f]
            vs.view.unapply_filter(f)
        return 'ok', thunk, None, {'view': key}

    def op_resetf(self, key):
        vs = self.views.get(key)
        if vs is None:
            return None

        def thunk():
            vs.filters = []
            vs.view.reset_filters()
        return 'ok', thunk, None, {'view': key}

    def op_swap(self, key, drop, f):
        """unapply without refresh, then apply (the contact-list idiom)"""
        vs = self.views.get(key)
        if vs is None or f in vs.filters or f.startswith('par'):
            return None

        def thunk():
            vs.filters = [x for x in vs.filters if x not in drop] + [f]
            for d in drop:
                vs.view.unapply_filter(d, refresh=False)
            vs.view.apply_filter(f)
        return 'ok', thunk, None, {'view': key}

    def op_lazy(self, key, steps):
        """Filter changes without refresh, the last one with."""
        vs = self.views.get(key)
        if vs is None or self._param_clash(key, [x[1] for x in steps if x[2]]):
            return None
        fs, params, last = list(vs.filters), dict(self.params), False
        for kind, f, par in steps:
            if kind == 'reset':
                fs, last = [], True
            elif kind == 'apply':
                if f.startswith('par') and not par and not params[f]:
                    return None
                last = f not in fs or bool(par)
                if par:
                    params[f] = dict(par)
                if f not in fs:
                    fs.append(f)
            else:
                last = f in fs
                fs = [x for x in fs if x != f]
        if not last:
            return None         # would not be refreshed

        def thunk():
            vs.filters = fs
            self.params.update(params)
            for k, (kind, f, par) in enumerate(steps):
                end = k == len(steps) - 1
                if kind == 'reset':
                    vs.view.reset_filters(refresh=end)
                elif kind == 'apply':
                    vs.view.apply_filter(f, parameters=dict(par) if par else None,
                                         refresh=end)
                else:
                    vs.view.unapply_filter(f, refresh=end)
        return 'ok', thunk, None, {'view': key}

    def op_bank(self, what, name, source=None):
        """Add or remove a filter; the views that use it are refreshed."""
        used = any(name in vs.filters for vs in
                   list(self.views.values()) + list(self.counts.values()))

        def thunk():
            if what == 'add':
                there = self.bank.get(name) is not None
                if not there:
                    self.bank[name] = source
                    self.params[name] = FILTERS[source][1]
                p = FILTERS[source][1]
                got = self.tree.add_filter(name, FILTERS[source][0], dict(p) if p else None)
                want = not there
            else:
                want = self.bank.pop(name, None) is not None
                self.params.pop(name, None)
                got = self.tree.remove_filter(name)
            if used:
                self.tree.refresh_all()
            return got, want
        return 'ok', thunk, None, {'touched': ()}

    # operations: counters ---------------------------------------------------
    def op_count(self, key, name, filters):
        """A new counter (with filters: created lazily, then filtered)."""
        if key in self.counts or (name is not None and any(
                c.name == name for c in self.counts.values())):
            return None

        def thunk():
            # On an empty tree there is nothing to refresh
            cnt = self.tree.get_viewcount(name=name, refresh=bool(
                not filters and self.model.ids()))
            cs = VState(key, name, cnt)
            cs.filters = list(dict.fromkeys(filters))
            for f in cs.filters:
                cnt.apply_filter(f)
            self.counts[key] = cs
            for lis in self.listeners:
                getattr(lis, 'count_created', lambda c: None)(cs)
        return 'ok', thunk, None, {'view': '#' + key}

    def op_cfilter(self, key, what, f):
        cs = self.counts.get(key)
        if cs is None:
            return None

        def thunk():
            if what == 'apply':
                # a counter does not accept filters that are not there
                if f not in cs.filters and (f in FILTERS or f in self.bank):
                    cs.filters = cs.filters + [f]
                cs.view.apply_filter(f)
            else:
                cs.filters = [x for x in cs.filters if x != f]
                cs.view.unapply_filter(f)
        return 'ok', thunk, None, {'view': '#' + key}

    def op_clazy(self, key, filters):
        """Filters without refresh, the last one with."""
        cs = self.counts.get(key)
        filters = list(dict.fromkeys(filters))
        if cs is None or not filters or filters[-1] in cs.filters:
            return None

        def thunk():
            for f in filters:
                if f not in cs.filters:
                    cs.filters = cs.filters + [f]
                if f is filters[-1]:
                    cs.view.apply_filter(f)
                else:
                    cs.view.apply_filter(f, refresh=False)
        return 'ok', thunk, None, {'view': '#' + key}

    def op_cmodify(self, i, c):
        """A node changes and the counters are told, but nobody else."""
        def thunk():
            if self.model.has(i):
                self._flip(i, c)
            for cs in self.counts.values():
                cs.view.modify(i)
        return 'ok', thunk, None, {'touched': ()}

    def op_note(self, *args):
        """Something only the monitors do."""
        return 'ok', (lambda: None), None, {'structural': False}

    # copies ---------------------------------------------------------------
    def fresh_view(self, tree, filters):
        def make():
            if not filters:
                return tree.get_viewtree()
            view = tree.get_viewtree(refresh=False)
            for f in filters[:-1]:
                view.apply_filter(f, refresh=False)
            view.apply_filter(filters[-1])
            return view
        return self.call(make)

    def fill_bank(self, tree, params=None):
        for name in sorted(FILTERS):
            func, default, _ = FILTERS[name]
            tree.add_filter(name, func, dict(default) if default else None)
        for name, source in self.bank.items():
            func, default, _ = FILTERS[source]
            tree.add_filter(name, func, dict(default) if default else None)
        for name in ('par1', 'par2'):
            p = (params or {}).get(name)
            tree.add_filter(name, by_param, dict(p) if p else None)

    def rebuild(self):
        """A new tree with the same nodes and relationships."""
        tree = Tree()
        self.fill_bank(tree, self.params)
        src = self.tree
        todo = list(src.get_main_view().get_all_nodes())
        done = set()

        def build():
            while todo:
                ready = [i for i in todo
                         if set(src.get_node(i).get_parents()) <= done]
                for i in ready or todo[:1]:
                    old = src.get_node(i)
                    node = LNode(i, old.colors)
                    node.version = old.version
                    ps = old.get_parents()
                    tree.add_node(node, ps[0] if ps else None)
                    for p in ps[1:]:
                        tree.add_parent(i, p)
                    done.add(i)
                    todo.remove(i)
        self.call(build)
        return tree

    # main tree against model ------------------------------------------------
    def real_main(self):
        """(relations, top level) of the real tree through its public API."""
        tree = self.tree
        main = tree.get_main_view()
        ids = main.get_all_nodes()
        rel = {i: (tuple(tree.get_node(i).get_parents()),
                   tuple(tree.get_node(i).get_children())) for i in ids}
        return rel, tuple(main.node_all_children())

    def sync_check(self):
        """Do model and real tree agree on nodes and relations (as sets)?"""
        rel, top = self.real_main()
        mrel, mtop = self.model.snapshot()
        if set(rel) != set(mrel):
            return 'nodes: real %s, expected %s' % (sorted(rel), sorted(mrel))
        for i in sorted(mrel):
            for k, what in ((0, 'parents'), (1, 'children')):
                if sorted(rel[i][k]) != sorted(mrel[i][k]):
                    return '%s of %s: real %s, expected %s' % (
                        what, i, list(rel[i][k]), list(mrel[i][k]))
        if sorted(top) != sorted(mtop):
            return 'top level: real %s, expected %s' % (list(top), list(mtop))
        return None
