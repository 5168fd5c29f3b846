"""Monitors of filter handling, isolation of views, and counters."""
import random

from .filters import DESC, FILTERS, OWN
from .monbase import Monitor, sig
from .viewspec import diff_displayed, digest, spec_shown, structure, view_paths


class FilterSet(Monitor):
    """A view depends on the set of its filters only; counting agrees."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.n = 0

    def after_op(self, op, out):
        if out.exc is not None and out.status == 'ok':
            return
        w = self.w
        self.n += 1
        if op[0] == 'bank':
            self.count['bank_changes'] += 1
            got, want = out.value
            if bool(got) != want:
                self.fail('bank-result', '%s returned %r' % (op, got))
        names = sorted(w.tree.list_filters())
        want = sorted(set(FILTERS) | {'par1', 'par2'} | {
            k for k, v in w.bank.items() if v is not None})
        if names != want:
            self.fail('bank-list', 'after %s: the bank lists %s, should list %s' % (
                op, names, want))
        rng = random.Random(self.n)
        others = ['cust1', 'cust2'] + [p for p in ('par1', 'par2') if w.params[p]]
        for vs in w.views.values():
            got = vs.view.list_applied_filters()
            if sorted(got) != sorted(vs.filters):
                self.fail('applied-list', 'after %s: view %s lists %s, applied are %s' % (
                    op, vs.key, got, vs.filters))
                return
            d = diff_displayed(w, vs)
            self.count['content_checks'] += 1
            self.states.add(digest(w, vs))
            if d:
                self.fail('filters-' + d[0], 'after %s: %s' % (op, d[1]))
                return
            shown = spec_shown(w, vs)
            # always ask about the same filters too: nothing may be remembered
            for extra in (['red'], ['leaf'], [rng.choice(OWN + DESC)],
                          rng.sample(OWN + DESC, 2), [rng.choice(others)],
                          rng.sample([rng.choice(OWN + DESC), rng.choice(others)], 2)):
                want = {i for i in shown if all(w.node_passes(f, i) for f in extra)}
                self.count['count_queries'] += 1
                asked = list(extra)
                got = vs.view.get_nodes(withfilters=asked)
                if sorted(got) != sorted(want):
                    self.fail('count-nodes', 'after %s: view %s %s with %s: %s, should be %s' % (
                        op, vs.key, vs.filters, extra, sorted(got), sorted(want)))
                    return
                if vs.view.get_n_nodes(withfilters=asked) != len(want) or asked != extra:
                    self.fail('count-number', 'after %s: view %s %s with %s counts %s, not %d' % (
                        op, vs.key, vs.filters, extra,
                        vs.view.get_n_nodes(withfilters=list(extra)), len(want)))
                    return
        main = w.tree.get_main_view()
        for extra in (['blue'], [rng.choice(OWN + DESC)], [rng.choice(others)]):
            want = sum(1 for i in main.get_all_nodes()
                       if all(w.node_passes(f, i) for f in extra))
            self.count['count_queries'] += 1
            if main.get_n_nodes(withfilters=list(extra)) != want:
                self.fail('count-main', 'after %s: main view with %s counts %s, not %d' % (
                    op, extra, main.get_n_nodes(withfilters=list(extra)), want))
                return

    def finish(self):
        """The same set of filters, arrived at in other ways."""
        w = self.w
        rng = random.Random(self.n)
        for vs in list(w.views.values()):
            want = structure(vs.view)
            for k in range(2):
                fs = list(vs.filters)
                rng.shuffle(fs)
                plan = [('apply', f) for f in fs]
                for f in rng.sample(OWN + DESC, 2):
                    if f not in fs:
                        a = rng.randint(0, len(plan))
                        b = rng.randint(a, len(plan))
                        plan.insert(b, ('unapply', f))
                        plan.insert(a, ('apply', f))
                view = w.call(w.tree.get_viewtree, refresh=bool(k) or not plan)
                for kind, f in plan:
                    getattr(view, kind + '_filter')(f)
                self.count['detours'] += 1
                if structure(view) != want:
                    self.fail('filters-order', 'view %s %s is %s; after %s it is %s' % (
                        vs.key, vs.filters, want, plan, structure(view)))
                    return
                view.reset_filters()
                free = w.fresh_view(w.tree, [])
                if structure(view) != structure(free):
                    self.fail('filters-reset', 'after %s and a reset: %s, unfiltered: %s' % (
                        plan, structure(view), structure(free)))
                    return


LIKE = [lambda s: s.upper(), lambda s: s + ' ', lambda s: s[1:], lambda s: s + '~',
        lambda s: ' ' + s, lambda s: s + '\n', lambda s: s + '\u0301', lambda s: s * 2,
        lambda s: 'main ' + s, lambda s: s[::-1]]


class Isolation(Monitor):
    """What is done to one view does not touch the others or the tree."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.events = []
        self.n = 0
        self.extra = ['red']
        self.asked = set()
        self.alike = {}
        main = world.tree.get_main_view()
        for ev in ('node-added', 'node-deleted', 'node-modified'):
            main.register_cllbck(
                ev, lambda nid, path, ev=ev: self.events.append(('main', ev, nid)))

    def view_created(self, vs):
        for ev in ('added', 'deleted', 'modified'):
            vs.view.register_cllbck(
                'node-%s-inview' % ev,
                lambda nid, path, ev=ev, vs=vs: self.events.append((vs.key, ev, path)))

    def snap(self, skip):
        w = self.w
        return ({k: (view_paths(v.view), v.view.list_applied_filters())
                 for k, v in w.views.items() if k != skip},
                {k: v.view.get_n_nodes() for k, v in w.counts.items() if '#' + k != skip},
                w.real_main(), sorted(w.tree.list_filters()))

    def before_op(self, op, out):
        self.pre = self.snap(out.view) if out.view else None
        del self.events[:]

    def after_op(self, op, out):
        if out.exc is not None and out.status == 'ok':
            return
        self.n += 1
        if self.pre is not None:
            self.count['one_view_ops'] += 1
            self.compare(op, out.view)
        if self.n % 6 == 0:
            self.names()
        if self.w.views:
            self.states.add(sig(tuple(digest(self.w, v) for v in self.w.views.values())))

    def compare(self, what, skip):
        post = self.snap(skip)
        self.count['others_compared'] += len(post[0])
        for name, a, b in zip(('views', 'counters', 'main tree', 'filters'), self.pre, post):
            if a != b:
                bad = next((k for k in a if a[k] != b.get(k)), '') if isinstance(a, dict) else ''
                self.fail('isolation', '%s changed %s %s' % (what, name, bad))
                return
        other = [e for e in self.events if e[0] != skip]
        if other:
            self.fail('isolation-events', '%s notified %s' % (what, other[0]))

    def names(self):
        """Asking again by name, and asking for new ones."""
        w = self.w
        self.pre = self.snap(None)
        del self.events[:]
        seen = [v.view for v in w.views.values()] + [w.tree.get_main_view()]
        for vs in list(w.views.values()):
            if vs.name is not None:
                self.count['named_lookups'] += 1
                for refresh in (True, False):
                    if w.call(w.tree.get_viewtree, name=vs.name, refresh=refresh) is not vs.view:
                        self.fail('name', 'view %s is another object when asked again' % vs.name)
        for cs in w.counts.values():
            if cs.name is not None:
                self.count['named_lookups'] += 1
                if w.call(w.tree.get_viewcount, name=cs.name) is not cs.view:
                    self.fail('name', 'counter %s is another object when asked again' % cs.name)
        if w.tree.get_main_view() is not seen[-1]:
            self.fail('name', 'the main view is another object when asked again')
        # a name that only resembles one of them
        for what, get, known in (('view', w.tree.get_viewtree, w.views),
                                 ('counter', w.tree.get_viewcount, w.counts)):
            names = [v.name for v in known.values() if v.name is not None]
            if not names:
                continue
            name = names[self.n % len(names)]
            like = LIKE[self.n // 6 % len(LIKE)](name)
            objects = [v.view for v in known.values()] + seen[-1:] + self.alike.get(what, [])
            if (what, like) not in self.asked:
                self.asked.add((what, like))
                self.count['similar_names'] += 1
                got = w.call(get, name=like)
                if any(got is v for v in objects):
                    self.fail('name', 'asked for the %s %r, got one of another name' % (what, like))
                elif got.get_n_nodes() != len(w.tree.get_main_view().get_all_nodes()):
                    self.fail('name', 'the new %s %r has %d nodes, not all' % (
                        what, like, got.get_n_nodes()))
                if what == 'view':
                    got.apply_filter('blue')
                else:
                    got.apply_filter('none')
                self.alike.setdefault(what, []).append(got)
        new = w.call(w.tree.get_viewtree, refresh=False)
        new2 = w.call(w.tree.get_viewtree)
        if any(new is v or new2 is v for v in seen) or new is new2:
            self.fail('name', 'an anonymous view is not a new one')
        if new2.list_applied_filters() != []:
            self.fail('name', 'a new view already has filters %s' % new2.list_applied_filters())
        new2.apply_filter('red')
        if w.call(w.tree.get_viewcount) in [c.view for c in w.counts.values()]:
            self.fail('name', 'an anonymous counter is not a new one')
        # the list of filters we count with is ours
        for v in [new2] + [vs.view for vs in w.views.values()]:
            self.count['counted_with'] += 1
            if (v.get_n_nodes(withfilters=self.extra) != v.get_n_nodes(withfilters=['red'])
                    or self.extra != ['red']):
                self.fail('isolation-count', 'counting with a list used for other views before '
                          'gives something else (it is %s now)' % self.extra)
                break
            if v.get_n_nodes() != len(v.get_all_nodes()):
                self.fail('isolation-count', 'a view counts %d nodes, there are %d' % (
                    v.get_n_nodes(), len(v.get_all_nodes())))
                break
        main = w.tree.get_main_view()
        for fn in (lambda: main.apply_filter('red'), lambda: main.unapply_filter('red'),
                   main.reset_filters):
            self.count['main_view_filters'] += 1
            try:
                fn()
            except Exception:
                continue
            self.fail('main-filter', 'the main view accepted a filter operation')
        self.compare('asking for views', None)


class Counters(Monitor):
    """A counter equals the number of nodes that pass its filters."""

    def __init__(self, world):
        Monitor.__init__(self, world)
        self.cb = {}        # (counter, callback no) -> [registered?, calls, seen]

    def count_created(self, cs):
        for k in range(3):
            rec = {'on': False, 'calls': 0, 'seen': None, 'plan': None}

            def fn(rec=rec, cs=cs):
                rec['calls'] += 1
                rec['seen'] = cs.view.get_n_nodes()
                if not rec['on']:
                    self.fail('count-unregistered', 'counter %s called an '
                              'unregistered callback' % cs.key)
                if rec['plan']:
                    # callbacks come and go while they are called
                    what, other = rec['plan']
                    rec['plan'] = None
                    self.count['changes_inside'] += 1
                    self.change(cs, self.cb[cs.key, other], what == 'reg')
            rec['fn'] = fn
            self.cb[cs.key, k] = rec
        self.cb[cs.key, 0]['on'] = True
        cs.view.register_cllbck(self.cb[cs.key, 0]['fn'])

    def before_op(self, op, out):
        self.pre = {k: c.view.get_n_nodes() for k, c in self.w.counts.items()}
        for rec in self.cb.values():
            rec['calls'], rec['seen'], rec['changed'] = 0, None, False
        self.was = {k: rec['on'] for k, rec in self.cb.items()}
        self.inside = False

    def after_op(self, op, out):
        if out.exc is not None and out.status == 'ok':
            return
        w = self.w
        main = w.tree.get_main_view()
        for key, cs in w.counts.items():
            want = sum(1 for i in main.get_all_nodes()
                       if all(w.node_passes(f, i) for f in cs.filters))
            got = cs.view.get_n_nodes()
            self.count['counts_compared'] += 1
            self.states.add(sig((key, want, tuple(cs.filters), len(main.get_all_nodes()))))
            if got != want:
                self.fail('count', 'after %s: counter %s %s says %s, should be %d' % (
                    op, key, cs.filters, got, want))
                return
            changed = key in self.pre and self.pre[key] != got
            self.count['count_changes'] += changed
            calls = set()
            for k in range(3):
                rec = self.cb[key, k]
                if (changed and rec['on'] and self.was.get((key, k)) and not rec['calls']
                        and not rec.get('changed')):
                    self.fail('count-silent', 'after %s: counter %s went from %s to %s, '
                              'callback not called' % (op, key, self.pre[key], got))
                if rec['on'] and rec['calls'] and rec['seen'] != got:
                    self.fail('count-early', 'after %s: the last callback of counter %s '
                              'saw %s, not %s' % (op, key, rec['seen'], got))
                if not rec['on'] and not self.was.get((key, k)) and rec['calls'] and not self.inside:
                    self.fail('count-unregistered', 'after %s: counter %s called an '
                              'unregistered callback' % (op, key))
                if rec['on']:
                    calls.add(rec['calls'])
            if len(calls) > 1 and not self.inside:
                self.fail('count-uneven', 'after %s: callbacks of counter %s were called '
                          'unequally often: %s' % (op, key, sorted(calls)))
        if op[0] == 'note' and w.counts:
            rng = random.Random(op[2])
            key, k = rng.choice(sorted(self.cb))
            rec = self.cb[key, k]
            cs = w.counts[key]
            self.count['callback_changes'] += 1
            if rng.random() < .4:
                rec['plan'] = [rng.choice(['reg', 'unreg', 'unreg']), rng.randrange(3)]
                return
            self.change(cs, rec, rng.random() < .6)

    def change(self, cs, rec, on):
        self.inside = True
        try:
            if on:
                cs.view.register_cllbck(rec['fn'])
            else:
                cs.view.unregister_cllbck(rec['fn'])
            rec['on'] = on
            rec['changed'] = True
        except Exception as exc:
            self.fail('count-callbacks', 'changing callbacks raised %s: %s' % (
                type(exc).__name__, exc))
