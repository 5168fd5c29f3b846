"""Monitors of the views and their event streams."""
import collections

from .monbase import Monitor, sig
from .viewspec import (diff_displayed, diff_placement, digest, spec_shown,
                       structure, view_paths)


class ViewMonitor(Monitor):
    kind = 'view'

    def diff(self, vs):
        raise NotImplementedError

    def after_op(self, op, out):
        if out.exc is not None and out.status == 'ok':
            return
        for vs in self.w.views.values():
            d = self.diff(vs)
            self.count['view_comparisons'] += 1
            self.count['displayed'] += len(vs.view.get_all_nodes())
            if self.w.is_flat(vs):
                self.count['flat_comparisons'] += 1
            self.states.add(digest(self.w, vs))
            if d:
                self.fail('view-' + d[0], 'after %s: %s' % (op, d[1]))
                return


class ViewContent(ViewMonitor):
    """Every view shows exactly what its filters let through."""

    def diff(self, vs):
        d = diff_displayed(self.w, vs)
        n = len(self.w.tree.get_main_view().get_all_nodes())
        self.count['hidden'] += n - len(vs.view.get_all_nodes())
        return d


class Placement(ViewMonitor):
    """Every displayed node is under exactly its displayed parents."""

    def diff(self, vs):
        view = vs.view
        for i in view.get_all_nodes():
            if len(view.node_parents(i)) > 1:
                self.count['multi_parent'] += 1
        return diff_placement(self.w, vs)


class Recorder(object):
    """Replica of one view built from its notifications alone."""

    def __init__(self, owner, vs):
        self.o = owner
        self.vs = vs
        self.live = {}
        self.order = collections.defaultdict(list)
        v = vs.view
        self.keys = [(ev, v.register_cllbck(ev, fn)) for ev, fn in (
            ('node-added-inview', self.added),
            ('node-deleted-inview', self.deleted),
            ('node-modified-inview', self.modified),
            ('node-children-reordered', self.reordered))]
        self.log = []

    def detach(self):
        for ev, key in self.keys:
            self.vs.view.deregister_cllbck(ev, key)

    def ev(self, kind, nid, path):
        self.o.count['ev_' + kind] += 1
        self.log.append((kind, nid, path))
        if not isinstance(path, tuple) or not path or path[-1] != nid:
            self.o.fail('event-path', '%s %s at path %r' % (kind, nid, path))
            return False
        return True

    def added(self, nid, path):
        if not self.ev('added', nid, path):
            return
        if path in self.live:
            self.o.fail('event-double-add', 'added %s twice at %r' % (nid, path))
            return
        if len(path) > 1 and path[:-1] not in self.live:
            self.o.fail('event-orphan-add',
                        'added %s at %r before its parent row' % (nid, path))
        self.live[path] = nid
        self.order[path[:-1]].append(nid)

    def deleted(self, nid, path):
        if not self.ev('deleted', nid, path):
            return
        if path not in self.live:
            self.o.fail('event-bad-delete',
                        'deleted %s at %r, which is not announced' % (nid, path))
            return
        if self.order.get(path):
            self.o.fail('event-delete-order',
                        'deleted %s at %r while rows %s are below it' % (
                            nid, path, self.order[path]))
        del self.live[path]
        self.order[path[:-1]].remove(nid)
        self.order.pop(path, None)

    def modified(self, nid, path):
        if not self.ev('modified', nid, path):
            return
        if path not in self.live:
            self.o.fail('event-bad-modify',
                        'modified %s at %r, which is not announced' % (nid, path))

    def reordered(self, nid, path, neworder):
        # the new order of the children: neworder[k] is the old position
        self.log.append(('reordered', nid, path))
        kids = self.order[path or ()]
        if sorted(neworder) != list(range(len(kids))):
            self.o.fail('event-reorder', 'bad new order %r for %r' % (neworder, kids))
            return
        self.order[path or ()] = [kids[k] for k in neworder]

    def compare(self):
        rows = view_paths(self.vs.view)
        want = {p for p, _ in rows if p}
        have = set(self.live)
        if want != have:
            return ('replica-rows',
                    'view %s %s: rows announced but not in the view %s, in the '
                    'view but not announced %s' % (
                        self.vs.key, self.vs.filters, sorted(have - want)[:4],
                        sorted(want - have)[:4]))
        for path, kids in rows:
            if tuple(self.order.get(path, ())) != kids:
                return ('replica-order',
                        'view %s: under %r announced order %s, view %s' % (
                            self.vs.key, path, self.order.get(path), list(kids)))
        return None


class Recording(Monitor):
    """Base: one Recorder per view, started from the view's content."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.rec = {}

    def view_created(self, vs):
        rec = Recorder(self, vs)
        self.rec[vs.key] = rec
        if vs.view.get_all_nodes():
            # an unfiltered view is filled when it is created
            vs.view.get_current_state()

    def before_op(self, op, out):
        for r in self.rec.values():
            r.log = []


class EventReplica(Recording):
    """Replaying the notifications gives exactly the view."""

    def after_op(self, op, out):
        if out.exc is not None and out.status == 'ok':
            return
        for key, rec in self.rec.items():
            self.count['replica_comparisons'] += 1
            if rec.log:
                self.states.add(sig((key, tuple(rec.log))))
            d = rec.compare()
            if d:
                self.fail(d[0], 'after %s: %s' % (op, d[1]))
                return


class Announced(Recording):
    """Requested refreshes are reported for every row, and only that."""

    def __init__(self, world):
        Recording.__init__(self, world)
        self.main_log = []
        self.wrong = []
        main = world.tree.get_main_view()
        for ev in ('node-added', 'node-deleted', 'node-modified'):
            main.register_cllbck(
                ev, lambda nid, path, ev=ev: self.on_main(ev, nid))

    def on_main(self, ev, nid):
        self.main_log.append((ev, nid))
        self.count['main_' + ev] += 1
        there = self.w.tree.has_node(nid)
        if ev == 'node-added' and not there or ev == 'node-deleted' and there:
            self.wrong.append((ev, nid))

    def rows(self):
        return {k: {p for p, _ in view_paths(r.vs.view) if p}
                for k, r in self.rec.items()}

    def before_op(self, op, out):
        Recording.before_op(self, op, out)
        self.pre = self.rows()
        self.pre_main = self.w.real_main()[0]
        del self.main_log[:]
        del self.wrong[:]

    def after_op(self, op, out):
        if out.exc is not None and out.status == 'ok':
            return
        touched = set(out.touched)
        post = self.rows()
        for key, rec in self.rec.items():
            if key not in self.pre:
                continue
            seen = {p for kind, _, p in rec.log if kind in ('modified', 'added')}
            for path in self.pre[key] & post[key]:
                if path[-1] in touched:
                    self.count['refreshed_rows'] += 1
                    if len(path) > 1:
                        self.count['refreshed_nested_rows'] += 1
                    if path not in seen:
                        self.fail('refresh-silent',
                                  'after %s: row %r of view %s was not reported' % (
                                      op, path, key))
                        return
            if not out.structural:
                bad = [e for e in rec.log if e[0] != 'modified']
                self.count['idle_refreshes'] += 1
                if bad:
                    self.fail('refresh-moves', '%s changed nothing but announced %s %s at %r' % (
                        (op,) + bad[0]))
                    return
            self.states.add(sig((key, tuple(rec.log))))
        # the main view
        now = self.w.real_main()[0]
        log = collections.Counter(self.main_log)
        for i in set(now) | set(self.pre_main) | {n for _, n in self.main_log}:
            want_add = int(i in now and i not in self.pre_main)
            want_del = int(i in self.pre_main and i not in now)
            if log['node-added', i] != want_add:
                self.fail('main-added', 'after %s: node-added %d times for %s, expected %d' % (
                    op, log['node-added', i], i, want_add))
            if log['node-deleted', i] != want_del:
                self.fail('main-deleted', 'after %s: node-deleted %d times for %s, expected %d' % (
                    op, log['node-deleted', i], i, want_del))
        if self.wrong:
            self.fail('main-early', 'after %s: %s for %s came too early' % ((op,) + self.wrong[0]))
        stay = set(now) & set(self.pre_main)
        must = touched & stay
        for i in stay:
            for p in (set(now[i][0]) ^ set(self.pre_main[i][0])) & stay:
                must |= {i, p}
        for i in must:
            if not log['node-modified', i]:
                self.fail('main-modified', 'after %s: no node-modified for %s' % (op, i))
                return


class InCallback(Monitor):
    """Queries made while being notified do not raise and are coherent."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.known = set()
        self.vs = None
        main = world.tree.get_main_view()
        for ev in ('node-added', 'node-deleted', 'node-modified'):
            main.register_cllbck(ev, lambda nid, path, ev=ev: self.on_main(ev, nid))

    def on_main(self, ev, nid):
        self.count['on_main'] += 1
        if nid not in self.known:
            self.fail('callback-unknown', '%s names %r, never in the tree' % (ev, nid))

    def view_created(self, vs):
        for ev in ('added', 'deleted', 'modified'):
            vs.view.register_cllbck(
                'node-%s-inview' % ev,
                lambda nid, path, ev=ev, vs=vs: self.notified(ev, vs, nid, path))

    def before_op(self, op, out):
        if op[0] in ('add', 'readd'):
            self.known.add(op[1])
        self.budget = 1500
        if op[0] == 'view':
            self.count['views'] += 1

    def notified(self, ev, vs, nid, path):
        v = vs.view
        self.count['in_' + ev] += 1
        self.states.add(sig((ev, nid, path, len(v.get_all_nodes()))))
        if nid not in self.known or any(p not in self.known for p in path):
            self.fail('callback-unknown', '%s at %r names an unknown node' % (ev, path))
        try:
            nodes = v.get_all_nodes()
            top = v.node_all_children()
            v.get_n_nodes()
            v.node_n_children(None, True)
            listed = dict.fromkeys(nodes)
            listed.update(dict.fromkeys(top))
            for i in nodes:
                if len(nodes) < 40 or i == nid:
                    listed.update(dict.fromkeys(v.node_all_children(i)))
                    listed.update(dict.fromkeys(v.node_parents(i)))
            for i in listed:
                # large views: not every node at every notification
                if self.budget < 0 and i != nid:
                    continue
                self.budget -= 1
                v.is_displayed(i)
                v.node_parents(i)
                v.node_has_parent(i)
                v.node_all_children(i)
                v.node_has_child(i)
                v.node_n_children(i)
                paths = v.get_paths_for_node(i)
                self.budget -= len(paths)
                for p in paths[:8]:
                    if v.get_node_for_path(p) != i:
                        self.fail('callback-path', 'during %s of %s: path %r of %s leads to %r' % (
                            ev, nid, p, i, v.get_node_for_path(p)))
                self.count['queries'] += 8
            if ev != 'deleted':
                if not v.is_displayed(nid):
                    self.fail('callback-hidden', '%s %s, which is not displayed' % (ev, nid))
                elif path not in v.get_paths_for_node(nid):
                    self.fail('callback-path', '%s %s at %r, its paths are %s' % (
                        ev, nid, path, v.get_paths_for_node(nid)))
                elif v.get_node_for_path(path) != nid:
                    self.fail('callback-path', '%s %s at %r, which leads to %r' % (
                        ev, nid, path, v.get_node_for_path(path)))
                if not self.w.tree.has_node(nid):
                    self.fail('callback-gone', '%s %s, which is not in the tree' % (ev, nid))
        except Exception as exc:
            self.fail('callback-raise', 'during %s of %s at %r a query raised %s: %s' % (
                ev, nid, path, type(exc).__name__, str(exc).split('\n')[0]))


class History(Monitor):
    """A view depends on the present only; late observers catch up."""
    period = 15

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.n = 0

    def after_op(self, op, out):
        self.n += 1
        if out.exc is not None and out.status == 'ok':
            return
        if self.n % self.period == 0:
            self.check()

    def finish(self):
        self.check()

    def check(self):
        w = self.w
        twin = None
        for vs in list(w.views.values()):
            self.states.add(digest(w, vs))
            # a new observer
            rec = Recorder(self, vs)
            before = view_paths(vs.view)
            w.call(vs.view.get_current_state)
            rec.detach()
            self.count['late_observers'] += 1
            self.count['caught_up_rows'] += len(rec.live)
            bad = [e for e in rec.log if e[0] != 'added']
            d = rec.compare()
            if bad:
                self.fail('state-noise', 'view %s: current state announced %s' % (vs.key, bad[0]))
            elif d:
                self.fail('state-' + d[0], d[1])
            elif view_paths(vs.view) != before:
                self.fail('state-changed', 'view %s changed by asking for its state' % vs.key)
            # a new view in the same tree
            new = w.fresh_view(w.tree, vs.filters)
            self.count['twin_views'] += 1
            a, b = structure(vs.view), structure(new)
            if a != b:
                self.fail('twin-view', 'view %s %s is %s, a new one is %s' % (
                    vs.key, vs.filters, a, b))
                return
            if {p for p, _ in view_paths(vs.view)} != {p for p, _ in view_paths(new)}:
                self.fail('twin-rows', 'view %s %s: rows differ from a new view' % (
                    vs.key, vs.filters))
                return
            # the same view in a tree rebuilt from scratch
            if twin is None:
                twin = w.rebuild()
            other = w.fresh_view(twin, vs.filters)
            self.count['rebuilt_views'] += 1
            b = structure(other)
            if a != b:
                self.fail('twin-tree', 'view %s %s is %s, in a rebuilt tree %s' % (
                    vs.key, vs.filters, a, b))
                return
