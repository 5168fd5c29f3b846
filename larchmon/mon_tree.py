"""Monitors of the main tree."""
from .monbase import Monitor, sig
from .viewspec import view_paths


def graph(world):
    """{id: (parents, children)} and the top level, through the public API."""
    return world.real_main()


class WellFormed(Monitor):
    """The nodes form a DAG, known the same way at both ends of every edge."""
    needs_sync = False

    def after_op(self, op, out):
        d = self.check()
        self.count['graphs_checked'] += 1
        if d:
            self.fail('malformed', 'after %s: %s' % (op, d))

    def check(self):
        tree = self.w.tree
        main = tree.get_main_view()
        ids = main.get_all_nodes()
        idset = set(ids)
        if len(idset) != len(ids):
            return 'a node is listed twice: %s' % sorted(ids)
        par, chi = {}, {}
        for i in ids:
            if not tree.has_node(i):
                return '%s is listed but not in the tree' % i
            node = tree.get_node(i)
            if node.get_id() != i:
                return 'asking for %s gives the node %s' % (i, node.get_id())
            par[i], chi[i] = node.get_parents(), node.get_children()
            self.count['nodes'] += 1
            for what, other, lst in (('parent', par, par[i]), ('child', chi, chi[i])):
                if len(set(lst)) != len(lst):
                    return '%s has a %s twice: %s' % (i, what, lst)
                gone = [x for x in lst if x not in idset]
                if gone:
                    return '%s has a %s %s that is not in the tree' % (i, what, gone[0])
            if node.has_parent() != bool(par[i]):
                return '%s has_parent is %s with parents %s' % (i, node.has_parent(), par[i])
            if node.has_child() != bool(chi[i]):
                return '%s has_child is %s with children %s' % (i, node.has_child(), chi[i])
            if node.get_n_children() != len(chi[i]):
                return '%s counts %s children, has %s' % (i, node.get_n_children(), chi[i])
            for k, c in enumerate(chi[i]):
                if node.get_nth_child(k) != c:
                    return 'child %d of %s is %s, not %s' % (k, i, node.get_nth_child(k), c)
        for i in ids:
            for p in par[i]:
                if i not in chi[p]:
                    return '%s has parent %s, which does not have it as a child' % (i, p)
            for c in chi[i]:
                if i not in par[c]:
                    return '%s has child %s, which does not have it as a parent' % (i, c)
            self.count['edges'] += len(par[i])
        top = main.node_all_children()
        if len(set(top)) != len(top):
            return 'top level has duplicates: %s' % top
        if set(top) != {i for i in ids if not par[i]}:
            return 'top level is %s, nodes without parent are %s' % (
                sorted(top), sorted(i for i in ids if not par[i]))
        # acyclic, and everything reachable from the top level
        state = {}
        for t in top:
            stack = [(t, iter(chi[t]))]
            if t in state:
                continue
            state[t] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    if state.get(y) == 1:
                        return 'cycle through %s' % y
                    if y not in state:
                        state[y] = 1
                        stack.append((y, iter(chi[y])))
                        break
                else:
                    state[x] = 2
                    stack.pop()
        lost = idset - set(state)
        if lost:
            return 'not reachable from the top level: %s' % sorted(lost)
        self.states.add(sig(tuple(sorted((i, tuple(sorted(par[i]))) for i in ids))))
        return None


class Effect(Monitor):
    """Every edit does what the model says, and nothing else."""
    needs_sync = False
    order = True

    def before_op(self, op, out):
        self.pre = graph(self.w)
        self.stop = getattr(self, 'stop', False)

    def after_op(self, op, out):
        if self.stop or (out.exc is not None and out.status == 'ok'):
            return
        w, m = self.w, self.w.model
        self.count['edits_compared'] += 1
        self.count['op_' + op[0]] += 1
        if out.status == 'refused' and out.exc is None:
            # judged by the refusal property; here only the effect counts
            self.count['refused_silently'] += 1
        d = w.sync_check()
        if d:
            self.stop = True
            self.fail('effect', 'after %s: %s' % (op, d))
            return
        rel, top = graph(w)
        self.states.add(sig(tuple(sorted((i, tuple(sorted(v[0]))) for i, v in rel.items()))))
        for i in rel:
            node = w.tree.get_node(i)
            if node is not w.nodes.get(i):
                self.fail('effect-node', 'after %s: %s is another object' % (op, i))
            elif set(node.colors) != m.colors[i]:
                self.fail('effect-content', 'after %s: content of %s changed' % (op, i))
            if node.has_parents_enabled() != m.pen[i] or node.has_children_enabled() != m.cen[i]:
                self.fail('effect-flags', 'after %s: flags of %s changed' % (op, i))
        if op[0] == 'move' and op[3:] in ([], ['tree']) and out.status == 'ok':
            if out.value is not (op[1] in rel):
                self.fail('effect-return', 'after %s: returned %r' % (op, out.value))
        if not self.order:
            return
        prel, ptop = self.pre
        groups = [(i, prel[i][1], rel[i][1]) for i in rel if i in prel]
        groups.append(('the top level', ptop, top))
        for name, old, new in groups:
            stay_old = [c for c in old if c in new]
            stay_new = [c for c in new if c in old]
            if stay_old != stay_new:
                self.fail('effect-order', 'after %s: children of %s were %s, now %s' % (
                    op, name, list(old), list(new)))
                return
            if list(new[:len(stay_new)]) != stay_new:
                self.fail('effect-order', 'after %s: a new child of %s is not last: %s' % (
                    op, name, list(new)))
                return


def full_digest(world):
    """Everything a user can see: main tree and views, with order."""
    rel, top = graph(world)
    views = {k: (view_paths(vs.view), sorted(vs.view.list_applied_filters()))
             for k, vs in world.views.items()}
    cont = {i: world.tree.get_node(i).label() for i in rel}
    return rel, top, views, cont


def show_diff(a, b):
    for name, x, y in zip(('relations', 'top level', 'views', 'contents'), a, b):
        if x != y:
            if isinstance(x, dict):
                for k in sorted(set(x) | set(y), key=str):
                    if x.get(k) != y.get(k):
                        return '%s of %s: %s, then %s' % (name, k, x.get(k), y.get(k))
            return '%s: %s, then %s' % (name, x, y)
    return None


class Refusal(Monitor):
    """Requests that must be refused raise or do nothing, and change nothing."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.events = []

    def view_created(self, vs):
        for ev in ('node-added-inview', 'node-deleted-inview'):
            vs.view.register_cllbck(
                ev, lambda nid, path, ev=ev, k=vs.key: self.events.append((k, ev, nid, path)))

    def watched(self, out):
        return out.status == 'refused' or out.noop

    def before_op(self, op, out):
        self.pre = full_digest(self.w) if self.watched(out) else None
        del self.events[:]

    def after_op(self, op, out):
        if self.pre is None or (out.exc is not None and out.status == 'ok'):
            return
        kind = 'refused' if out.status == 'refused' else 'noop'
        self.count[kind + '_' + op[0]] += 1
        if out.status == 'refused' and out.exc is None:
            self.fail('not-refused', '%s cannot be honoured and was not refused' % (op,))
            return
        d = show_diff(self.pre, full_digest(self.w))
        if d:
            self.fail('refusal-changed', '%s was refused but changed %s' % (op, d))
        elif self.events:
            self.fail('refusal-events', '%s was refused but announced %s' % (
                op, self.events[0]))
        self.states.add(sig((tuple(op[:3]), str(self.pre[0]))))
