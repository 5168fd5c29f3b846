"""All queries of the main view, of filtered views and of nodes agree."""
from .monbase import Monitor, sig
from .viewspec import view_paths


class Bad(Exception):
    pass


class Queries(Monitor):
    period = 4

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.n = 0
        self.events = []

    def view_created(self, vs):
        for ev in ('added', 'deleted', 'modified'):
            vs.view.register_cllbck(
                'node-%s-inview' % ev,
                lambda nid, path, ev=ev, vs=vs: self.events.append((ev, vs.key, path)))

    def after_op(self, op, out):
        self.n += 1
        if out.exc is not None and out.status == 'ok':
            return
        if self.n % self.period == 0:
            self.check(op)

    def finish(self):
        self.check(['end'])

    def check(self, op):
        w = self.w
        del self.events[:]
        try:
            before = self.snapshot()
            main = w.tree.get_main_view()
            self.ask_view(main, None)
            for i in main.get_all_nodes():
                self.ask_node(w.tree.get_node(i), main)
            for vs in w.views.values():
                self.ask_view(vs.view, vs)
            if self.snapshot() != before:
                raise Bad('asking changed the answers')
            if self.events:
                raise Bad('asking announced %s' % (self.events[0],))
        except Bad as exc:
            self.fail('query', 'after %s: %s' % (op, exc))

    def snapshot(self):
        w = self.w
        return (w.real_main(), {k: view_paths(v.view) for k, v in w.views.items()},
                {k: sorted(v.view.list_applied_filters()) for k, v in w.views.items()})

    # ------------------------------------------------------------------
    def eq(self, what, got, want):
        self.count['queries'] += 1
        if got != want:
            raise Bad('%s is %r, should be %r' % (what, got, want))

    def asks(self, what, fn, want, exact=True):
        """fn() returns a list; spoiling the returned list changes nothing"""
        first = fn()
        self.eq(what, list(first) if exact else sorted(first),
                list(want) if exact else sorted(want))
        if isinstance(first, list):
            del first[:]
            first.append('spoiled')
            second = fn()
            self.eq(what + ' (asked again)', list(second) if exact else sorted(second),
                    list(want) if exact else sorted(want))

    def raises(self, what, exc, fn):
        self.count['queries'] += 1
        try:
            got = fn()
        except exc:
            return
        except Exception as other:
            raise Bad('%s raised %s' % (what, type(other).__name__))
        raise Bad('%s gave %r instead of %s' % (what, got, exc.__name__))

    def ask_view(self, v, vs):
        w = self.w
        name = 'main view' if vs is None else 'view %s %s' % (vs.key, vs.filters)
        try:
            self._ask_view(v, vs, name)
        except Bad as exc:
            raise Bad('%s: %s' % (name, exc))
        except Exception as exc:
            raise Bad('%s: a query raised %s: %s' % (
                name, type(exc).__name__, str(exc).split('\n')[0]))

    def _ask_view(self, v, vs, name):
        w = self.w
        rows = view_paths(v)
        kids = {(p[-1] if p else None): k for p, k in rows}
        paths, size = {}, {}
        for p, _ in rows:
            if p:
                paths.setdefault(p[-1], []).append(p)
        parents = {i: set() for i in paths}
        for p in paths:
            for x in paths[p]:
                if len(x) > 1:
                    parents[p].add(x[-2])

        def count(i):
            if i not in size:
                size[i] = sum(1 + count(c) for c in kids[i])
            return size[i]
        nodes = list(paths)
        self.states.add(sig((name, tuple(sorted(kids.items(), key=str)))))
        self.asks('get_all_nodes()', v.get_all_nodes, nodes, False)
        self.asks('get_nodes()', v.get_nodes, nodes, False)
        self.eq('get_n_nodes()', v.get_n_nodes(), len(nodes))
        self.asks('node_all_children()', v.node_all_children, kids[None])
        self.eq('node_n_children()', v.node_n_children(), len(kids[None]))
        self.eq('node_n_children(None, True)', v.node_n_children(None, True), count(None))
        self.eq('node_n_children(recursive=True)', v.node_n_children(recursive=True), count(None))
        self.eq('node_has_child(None)', v.node_has_child(None), bool(kids[None]))
        for k, c in enumerate(kids[None]):
            self.eq('node_nth_child(None, %d)' % k, v.node_nth_child(None, k), c)
        self.raises('node_nth_child(None, beyond)', ValueError,
                    lambda: v.node_nth_child(None, len(kids[None])))
        for i in nodes:
            self.count['nodes_asked'] += 1
            self.eq('is_displayed(%s)' % i, v.is_displayed(i), True)
            self.eq('get_node(%s)' % i, v.get_node(i) is w.tree.get_node(i), True)
            self.asks('node_parents(%s)' % i, lambda: v.node_parents(i), parents[i], False)
            self.eq('node_has_parent(%s)' % i, v.node_has_parent(i), bool(parents[i]))
            self.asks('node_all_children(%s)' % i, lambda: v.node_all_children(i), kids[i])
            self.eq('node_has_child(%s)' % i, v.node_has_child(i), bool(kids[i]))
            self.eq('node_n_children(%s)' % i, v.node_n_children(i), len(kids[i]))
            self.eq('node_n_children(%s, recursive)' % i, v.node_n_children(i, True), count(i))
            for k, c in enumerate(kids[i]):
                self.eq('node_nth_child(%s, %d)' % (i, k), v.node_nth_child(i, k), c)
            n = len(kids[i])
            self.raises('node_nth_child(%s, %d)' % (i, n), ValueError,
                        lambda: v.node_nth_child(i, n))
            self.asks('get_paths_for_node(%s)' % i,
                      lambda: v.get_paths_for_node(i), paths[i], False)
            if len(paths[i]) > 1:
                self.count['multi_path_nodes'] += 1
            for p in paths[i]:
                self.eq('get_node_for_path(%r)' % (p,), v.get_node_for_path(p), i)
                for bad in (p + p[-1:], p[:-1] + ('no such node',), ('no such node',) + p,
                            p[::-1] if p[::-1] != p else p + ('no such node',),
                            p[1:], p[-2:], p[:-2] + p[-1:], p[:1] + p[-1:]):
                    if bad and bad not in paths.get(bad[-1], ()):
                        self.eq('get_node_for_path(%r)' % (bad,), v.get_node_for_path(bad), None)
                # next sibling, below that parent
                up = p[-2] if len(p) > 1 else None
                sib = kids[up]
                k = sib.index(i)
                nxt = sib[k + 1] if k + 1 < len(sib) else None
                self.eq('next_node(%s, %s)' % (i, up), v.next_node(i, up), nxt)
            some = set()
            for up in parents[i] or {None}:
                sib = kids[up]
                k = sib.index(i)
                some.add(sib[k + 1] if k + 1 < len(sib) else None)
            self.count['queries'] += 1
            if v.next_node(i) not in some:
                raise Bad('next_node(%s) is %r, should be one of %s' % (
                    i, v.next_node(i), sorted(some, key=str)))
        for bad in ((), None, ('no such node',), ('no such node', 'nor this')):
            self.eq('get_node_for_path(%r)' % (bad,), v.get_node_for_path(bad), None)
        self.eq('get_basetree()', v.get_basetree() is w.tree, True)
        if vs is not None:
            # as text: the rows in order, indented
            lines, want, todo = v.print_tree(True).split('\n'), [], [((), None)]
            while todo:
                p, i = todo.pop()
                if i is not None:
                    want.append(' ' * len(p) + str(i))
                todo += [(p + (c,), c) for c in reversed(kids[i])]
            self.eq('print_tree(True)', any(
                lines[k:k + len(want)] == want for k in range(len(lines) - len(want) + 1)), True)
            rest = lines[[k for k in range(len(lines)) if lines[k:k + len(want)] == want][-1]
                         + len(want):] if want else []
            self.eq('rows after the last one', [x for x in rest if x.startswith(' ')], [])
        else:
            self.eq('get_viewtree("main")', w.tree.get_viewtree('main') is v, True)
            self.asks('node_all_children(unknown)', lambda: v.node_all_children('no such node'), [])
        self.eq('is_displayed(unknown)', v.is_displayed('no such node'), False)
        self.eq('node_n_children(unknown)', v.node_n_children('no such node'), 0)
        for i in w.tree.get_main_view().get_all_nodes():
            if i not in paths:
                self.count['hidden_asked'] += 1
                self.eq('is_displayed(%s)' % i, v.is_displayed(i), False)
                self.eq('node_n_children(%s)' % i, v.node_n_children(i), 0)
                for p in w.tree.get_main_view().get_paths_for_node(i):
                    self.eq('get_node_for_path(%r)' % (p,), v.get_node_for_path(p), None)

    def ask_node(self, node, main):
        i = node.get_id()
        try:
            kids, ps = main.node_all_children(i), main.node_parents(i)
            self.asks('get_children', node.get_children, kids)
            self.asks('get_parents', node.get_parents, ps)
            self.eq('get_n_children', node.get_n_children(), len(kids))
            self.eq('has_child', node.has_child(), bool(kids))
            self.eq('has_parent', node.has_parent(), bool(ps))
            for k, c in enumerate(kids):
                self.eq('get_nth_child(%d)' % k, node.get_nth_child(k), c)
                self.eq('get_child_index(%s)' % c, node.get_child_index(c), k)
            self.raises('get_nth_child(%d)' % len(kids), ValueError,
                        lambda: node.get_nth_child(len(kids)))
            for j in main.get_all_nodes() + ['no such node']:
                self.eq('has_child(%s)' % j, bool(node.has_child(j)), j in kids)
                self.eq('has_parent(%s)' % j, bool(node.has_parent(j)), j in ps)
                if j not in kids:
                    self.eq('get_child_index(%s)' % j, node.get_child_index(j), None)
        except Bad as exc:
            raise Bad('node %s: %s' % (i, exc))
        except Exception as exc:
            raise Bad('node %s: a query raised %s: %s' % (
                i, type(exc).__name__, str(exc).split('\n')[0]))
