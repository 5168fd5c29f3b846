"""Workload generation: random histories, a function of (seed, profile) only.

The generator keeps its own World-free shadow (a Model) to aim operations at
interesting targets; it never consults the code under test.
"""
import copy
import random

from .filters import COLORS, DESC, OWN
from .model import Model

BASE = {
    'add': 14, 'readd': 3, 'del': 5, 'delr': 3, 'move': 6, 'addp': 9,
    'rmp': 4, 'late': 3, 'color': 16, 'refresh': 3, 'refresh_all': 1,
    'bulk': 4, 'enable': 0, 'cycle': 2, 'junk': 1,
    'view': 2, 'filter': 8, 'lazy': 2, 'bank': 0, 'count': 0, 'cfilter': 0,
    'note': 0, 'drop': 0, 'share': 0, 'touch': 0, 'clazy': 0, 'cmodify': 0,
    'nofilter': 0,
}


class Profile(object):
    def __init__(self, weights=None, filters=None, nviews=(1, 4), nids=(3, 9),
                 nops=(8, 60), max_paths=150, late=0.3, start_views=True,
                 prefill=0.5, awkward=0.15, shape=None, **kw):
        self.weights = dict(BASE)
        self.weights.update(weights or {})
        self.filters = filters if filters is not None else OWN + DESC
        self.nviews = nviews
        self.nids = nids
        self.nops = nops
        self.max_paths = max_paths
        self.late = late
        self.start_views = start_views
        self.prefill = prefill      # share of histories starting with a full tree
        self.awkward = awkward
        self.shape = shape
        self.opts = kw

    def has(self, kind):
        return self.weights.get(kind, 0) > 0


class Gen(object):
    def __init__(self, seed, profile):
        self.r = random.Random(seed)
        self.p = profile
        r = self.r
        self.n = r.randint(*profile.nids)
        self.ids = ['n%d' % k for k in range(self.n)]
        if r.random() < profile.awkward:
            # awkward but legal identifiers
            odd = ['', ' ', 'n0 n1', 'added', 'deleted', 'modified',
                   'reordered', "o'k", 'é☃', '0', 'None', '(x,)', '<b>',
                   'N0', 'n1 ', '01', 'true', 'root:', '!n0', 'n' * 300]
            r.shuffle(odd)
            odd = [o for o in odd if o][:self.n // 2]
            if r.random() < .5:
                # made up of others
                real = self.ids[len(odd):]
                sep = r.choice([',', ',', '/', ':', '', ' ', '|', "', '", '.'])
                odd = list(dict.fromkeys(sep.join(r.sample(real, min(2, len(real))))
                                         for _ in odd))
                odd = [o for o in odd if o not in real]
            self.ids[:len(odd)] = odd
        self.m = Model()
        self.removed = set()
        self.views = {}
        self.ops = []
        self.shape = profile.shape or r.choice(['mixed', 'deep', 'wide', 'dag', 'late'])
        self.hubs = r.sample(self.ids, min(r.choice([1, 2, 2]), self.n))
        self.most = r.choice([3, 3, 3, 6])      # filters on one view

    # ------------------------------------------------------------------
    def colors(self):
        return [c for c in COLORS if self.r.random() < 0.5]

    def pick_parent(self, ex):
        r = self.r
        if not ex or r.random() < {'deep': .1, 'wide': .6, 'fan': .8}.get(self.shape, .35):
            return None
        if self.shape == 'deep' and r.random() < .7:
            return max(ex, key=lambda i: (len(self.m.ancestors(i)), r.random()))
        if self.shape == 'star' and r.random() < .85:
            return r.choice([i for i in self.hubs if i in ex] or ex)
        return r.choice(ex)

    def emit(self, *op):
        self.ops.append(list(op))

    def rels_for(self, i, ex, nx):
        r, rels = self.r, []
        late = self.p.late * (2 if self.shape == 'late' else 1)
        for _ in range(6):
            if r.random() >= min(late, .9) or len(rels) >= 3:
                break
            other = r.choice([x for x in self.ids if x != i] or [i])
            kind = r.choice('cp')
            if (kind, other) in rels or (('c' if kind == 'p' else 'p'), other) in rels:
                continue
            rels.append((kind, other))
        return rels

    def shadow_add(self, i, parent, rels):
        m = self.m
        extra = [((i, o) if k == 'c' else (o, i)) + (True,) for k, o in rels]
        must, may = m.completable(i, extra)
        m.insert(i, [])
        m.pending = [x for x in m.pending + extra
                     if not (m.has(x[0]) and m.has(x[1]) and i in x[:2])]
        if parent is not None and parent != i:
            if m.has(parent):
                must.append((parent, i))
            else:
                m.pending.append((parent, i, True))
        for p, c in must + may:
            if not m.closes_cycle(p, c):
                m.link(p, c)

    def explodes(self, i, parent, rels):
        """Would the links that wait for i make paths without number?"""
        if not rels and not self.m.pending:
            return False
        m, self.m = self.m, copy.deepcopy(self.m)
        try:
            self.shadow_add(i, parent, rels)
            return self.m.total_paths() > 10 * self.p.max_paths
        finally:
            self.m = m

    def too_many_paths(self):
        return self.m.total_paths() > self.p.max_paths

    # ------------------------------------------------------------------
    def history(self):
        r, p = self.r, self.p
        if p.start_views:
            for _ in range(r.randint(*p.nviews)):
                self.g_view()
        n = r.randint(*p.nops)
        if p.has('count') and r.random() < .4:
            self.g_count()
        if r.random() < p.prefill:
            for _ in range(int(self.n * r.uniform(.6, 1.2))):
                self.g_add()
            for _ in range(self.n if self.shape == 'fan' else r.choice([0, 1, 2, self.n // 2])):
                self.g_addp()
            n += len(self.ops)
            if p.start_views and r.random() < .3:
                self.g_view()
        kinds = [k for k, w in p.weights.items() if w > 0]
        weights = [p.weights[k] for k in kinds]
        if self.shape in ('dag', 'late'):
            weights = [w * (2 if k in ('addp', 'late') else 1)
                       for k, w in zip(kinds, weights)]
        tries = 0
        while len(self.ops) < n and tries < n * 4:
            tries += 1
            getattr(self, 'g_' + r.choices(kinds, weights)[0])()
        return self.ops

    def split(self):
        ex = [i for i in self.ids if self.m.has(i)]
        nx = [i for i in self.ids if not self.m.has(i)]
        return ex, nx

    def g_add(self):
        ex, nx = self.split()
        if not nx:
            return
        i = self.r.choice(nx)
        if self.r.random() < self.p.late * 0.4 and len(nx) > 1:
            parent = self.r.choice([x for x in nx if x != i])   # late parent
        else:
            parent = self.pick_parent(ex)
        rels = self.rels_for(i, ex, nx) if self.r.random() < .4 else []
        ctor = None
        if self.r.random() < .1:
            ctor = self.r.choice([x for x in self.ids if x != i] or [None])
            if any(o == ctor for _, o in rels):
                ctor = None
        dis = ''
        if self.p.has('enable') and self.r.random() < .15 and not rels and ctor is None:
            dis = self.r.choice(['p', 'c', 'pc'])
        colors = self.colors()
        every = rels + ([('p', ctor)] if ctor else [])
        if self.explodes(i, parent, every):
            return
        self.emit('add', i, parent, colors, rels, ctor, dis)
        self.removed.discard(i)
        self.shadow_add(i, parent, every)
        if dis:
            self.m.pen[i] = 'p' not in dis
            self.m.cen[i] = 'c' not in dis

    def g_readd(self):
        ex, nx = self.split()
        rem = [i for i in nx if i in self.removed]
        if not rem:
            return
        i = self.r.choice(rem)
        parent = self.pick_parent(ex)
        rels = self.rels_for(i, ex, nx) if self.r.random() < .2 else []
        if self.explodes(i, parent, rels):
            return
        self.emit('readd', i, parent, rels)
        self.removed.discard(i)
        self.shadow_add(i, parent, rels)

    def _del(self, rec):
        ex, nx = self.split()
        if not ex or (len(ex) < 3 and self.r.random() < .6):
            return
        i = self.r.choice(ex)
        if self.r.random() < .5:
            multi = [x for x in ex if len(self.m.parents[x]) > 1 or self.m.children[x]]
            i = self.r.choice(multi or ex)
        before = set(ex)
        self.emit('del', i, rec)
        self.m.delete(i, rec)
        self.removed |= before - set(self.m.ids())

    def g_del(self):
        self._del(False)

    def g_delr(self):
        self._del(True)

    def g_move(self):
        ex, nx = self.split()
        if not ex:
            return
        i = self.r.choice(ex)
        if self.r.random() < .4:
            i = self.r.choice([x for x in ex if len(self.m.parents[x]) > 1] or ex)
        m = self.m
        ok = [x for x in ex if not m.closes_cycle(x, i)]
        x = self.r.random()
        if x < .3 or not ok:
            parent = None
        elif x < .4 and nx and self.p.late:
            parent = self.r.choice(nx)
        else:
            parent = self.r.choice(ok)
        self.emit('move', i, parent, self.r.choice(['tree', 'node']))
        m.forget_parents(i)
        if parent is None or not m.has(parent) or m.cen[parent]:
            for p in list(m.parents[i]):
                m.unlink(p, i)
            if parent is not None:
                if m.has(parent):
                    m.link(parent, i)
                else:
                    m.declare(parent, i)

    def g_addp(self):
        ex, nx = self.split()
        if len(ex) < 2 or self.too_many_paths():
            return
        i = self.r.choice(ex)
        m = self.m
        ok = [x for x in ex if not m.closes_cycle(x, i)]
        if not ok:
            return
        # shared ancestry (diamonds) is where views have a hard time
        if self.shape == 'fan' and self.r.random() < .8:
            # many above the same few
            hub = self.r.choice(self.hubs)
            ok = [x for x in ex if m.has(hub) and not m.closes_cycle(x, hub)]
            if not ok:
                return
            i = hub
        elif self.r.random() < .5:
            near = [x for x in ok if m.ancestors(x) & (m.ancestors(i) | {i}) or
                    set(m.descendants(x)) & set(m.parents[i])]
            ok = near or ok
        p = self.r.choice(ok)
        self.emit('addp', i, p, self.r.choice(['tree', 'node', 'child']))
        if m.cen[p] and m.pen[i]:
            m.link(p, i)

    def g_rmp(self):
        ex, _ = self.split()
        kids = [x for x in ex if self.m.parents[x]]
        if not kids:
            return
        i = self.r.choice(kids)
        p = self.r.choice(self.m.parents[i])
        self.emit('rmp', i, p)
        self.m.unlink(p, i)

    def g_late(self):
        ex, nx = self.split()
        if not ex or not nx or not self.p.late:
            return
        if self.r.random() < .5:
            p, c = self.r.choice(ex), self.r.choice(nx)
            self.emit('addlate', p, c)
            self.m.declare(p, c)
        else:
            c, p = self.r.choice(ex), self.r.choice(nx)
            self.emit('addp', c, p, self.r.choice(['tree', 'node']))
            self.m.declare(p, c)

    def g_color(self):
        ex, _ = self.split()
        if ex:
            self.emit('color', self.r.choice(ex), self.r.choice(COLORS),
                      self.r.choice(['modified', 'modified', 'refresh']),
                      self.r.choice(['low', 'high', 'medium']))

    def g_refresh(self):
        ex, _ = self.split()
        if ex:
            self.emit('refresh', self.r.choice(ex))

    def g_refresh_all(self):
        self.emit('refresh_all', *self.r.choice([[], [], ['main'], ['state'],
                                                 sorted(self.views)[:1]]))

    def g_bulk(self):
        ex, _ = self.split()
        if len(ex) < 2:
            return
        k = self.r.randint(2, min(len(ex), 5))
        c = self.r.choice(COLORS)
        flips = [(i, c if self.r.random() < .6 else self.r.choice(COLORS))
                 for i in self.r.sample(ex, k)]
        self.emit('bulk', flips, self.r.choice(['all', 'all', 'fwd', 'rev']))

    def g_enable(self):
        ex, _ = self.split()
        if not ex:
            return
        i = self.r.choice(ex)
        which, flag = self.r.choice('pc'), self.r.random() < .5
        self.emit('enable', i, which, flag)
        if which == 'p':
            self.m.pen[i] = flag
            if not flag:
                for p in list(self.m.parents[i]):
                    self.m.unlink(p, i)
        else:
            self.m.cen[i] = flag
            if not flag:
                for c in list(self.m.children[i]):
                    self.m.unlink(i, c)

    def g_cycle(self):
        """A request that must be refused."""
        ex, _ = self.split()
        if not ex:
            return
        i = self.r.choice([x for x in ex if self.m.children[x]] or ex)
        d = self.r.choice(sorted(self.m.descendants(i)) or [i])
        if self.r.random() < .15:
            d = i
        if self.r.random() < .6:
            self.emit('addp', i, d, self.r.choice(['tree', 'node', 'child']))
        else:
            self.emit('move', i, d, self.r.choice(['tree', 'node']))

    def g_junk(self):
        """Requests about nodes that do not exist or already exist."""
        ex, nx = self.split()
        k = self.r.randrange(5)
        if k == 0 and ex:
            self.emit('add', self.r.choice(ex), self.pick_parent(ex),
                      self.colors(), [], None, '')
        elif k == 1 and nx:
            self.emit('del', self.r.choice(nx), self.r.random() < .5)
        elif k == 2 and nx:
            self.emit('move', self.r.choice(nx), self.r.choice(ex + [None]), 'tree')
        elif k == 3 and nx and ex:
            self.emit('addp', self.r.choice(nx), self.r.choice(ex), 'tree')
        elif k == 4 and nx:
            self.emit('refresh', self.r.choice(nx))

    # views --------------------------------------------------------------
    def g_view(self):
        if len(self.views) >= max(5, self.p.nviews[1]):
            return
        key = 'v%d' % len(self.views)
        name = key if self.r.random() < .4 else None
        fs = []
        if self.p.filters and self.r.random() < .8:
            k = self.r.choice([1, 1, 1, 2, 3, self.most])
            fs = self.r.sample(self.p.filters, min(k, len(self.p.filters)))
        self.views[key] = list(fs)
        self.emit('view', key, name, fs)

    def g_filter(self):
        if not self.views or not self.p.filters:
            return
        key = self.r.choice(sorted(self.views))
        fs = self.views[key]
        k = self.r.choice(['apply', 'apply', 'unapply', 'unapply', 'resetf',
                           'applyreset', 'swap', 'param'])
        f = self.r.choice(self.p.filters)
        if k == 'apply':
            if len(fs) >= self.most:
                return
            self.emit('apply', key, f)
            if f not in fs:
                fs.append(f)
        elif k == 'unapply':
            f = self.r.choice(fs) if fs and self.r.random() < .9 else f
            self.emit('unapply', key, f)
            if f in fs:
                fs.remove(f)
        elif k == 'resetf':
            self.emit('resetf', key)
            fs[:] = []
        elif k == 'applyreset':
            self.emit('apply', key, f, None, True)
            fs[:] = [f]
        elif k == 'swap':
            drop = [x for x in fs if self.r.random() < .7]
            if f in fs:
                return
            self.emit('swap', key, drop, f)
            fs[:] = [x for x in fs if x not in drop] + [f]
        elif k == 'param' and self.p.opts.get('params', True):
            f = self.r.choice(['par1', 'par2'])
            par = {'color': self.r.choice(COLORS)}
            if self.r.random() < .3:
                par['negate'] = self.r.random() < .8
            if self.r.random() < .2:
                par['flat'] = self.r.random() < .8
            self.emit('apply', key, f, par)
            if f not in fs:
                fs.append(f)

    def g_nofilter(self):
        if self.views:
            self.emit('nofilter', self.r.choice(sorted(self.views)), 'cust%d' % self.r.randrange(4),
                      {'color': self.r.choice(COLORS)}, self.r.random() < .5,
                      self.r.random() < .8)

    def g_share(self):
        if not self.views:
            return
        f = self.r.choice(['par1', 'par2'])
        par = {'color': self.r.choice(COLORS)}
        if self.r.random() < .3:
            par['negate'] = self.r.random() < .8
        if self.r.random() < .2:
            par['flat'] = self.r.random() < .8
        keys = self.r.sample(sorted(self.views), self.r.randint(1, len(self.views)))
        self.emit('share', f, par, keys)
        for k in keys:
            if f not in self.views[k]:
                self.views[k].append(f)

    def g_touch(self):
        ex, _ = self.split()
        if ex:
            self.emit('touch', self.r.choice(ex), self.r.randrange(8),
                      self.r.choice(['modified', 'refresh']))

    def g_clazy(self):
        if getattr(self, 'ncounts', 0):
            fs = self.p.opts['cfilters']
            self.emit('clazy', 'k%d' % self.r.randrange(self.ncounts),
                      self.r.sample(fs, self.r.randint(1, 3)))

    def g_cmodify(self):
        ex, nx = self.split()
        if ex and self.r.random() < .8 or not nx:
            nx = ex
        if nx:
            self.emit('cmodify', self.r.choice(nx), self.r.choice(COLORS))

    def g_lazy(self):
        if not self.views or not self.p.filters:
            return
        key = self.r.choice(sorted(self.views))
        fs = self.views[key]
        steps = []
        pool = self.p.filters + (['par1', 'par2'] if self.p.opts.get('params', True) else [])
        for _ in range(self.r.randint(1, 4)):
            k = self.r.choice(['apply', 'apply', 'unapply', 'reset'])
            f = self.r.choice(fs if fs and k == 'unapply' else pool)
            par = None
            if k == 'apply' and f.startswith('par'):
                par = {'color': self.r.choice(COLORS)}
                if self.r.random() < .3:
                    par['flat'] = self.r.random() < .8
            steps.append([k, f, par])
        # make sure that the last one takes effect
        if self.r.random() < .3:
            steps.append(['reset', '', None])
        else:
            free = [f for f in self.p.filters if f not in fs
                    and all(f != x[1] for x in steps)]
            if not free:
                return
            steps.append(['apply', self.r.choice(free), None])
        for k, f, _ in steps:
            if k == 'reset':
                fs[:] = []
            elif k == 'apply' and f not in fs:
                fs.append(f)
            elif k == 'unapply' and f in fs:
                fs.remove(f)
        self.emit('lazy', key, steps)

    def g_bank(self):
        """Custom filters come and go in the bank."""
        name = self.r.choice(['cust1', 'cust2'])
        x = self.r.random()
        if x < .35:
            # counters are for filters that look at the node alone
            nested = [f for f in (OWN if self.p.has('count') else self.p.filters)
                      if not f.startswith('flat')]
            self.emit('bank', 'add', name, self.r.choice(nested))
        elif x < .6:
            self.emit('bank', 'rm', name)
        elif getattr(self, 'ncounts', 0) and self.r.random() < .7:
            self.emit('cfilter', 'k%d' % self.r.randrange(self.ncounts),
                      self.r.choice(['apply', 'apply', 'unapply']), name)
        elif self.views:
            key = self.r.choice(sorted(self.views))
            if name in self.views[key]:
                self.views[key].remove(name)
                self.emit('unapply', key, name)
            else:
                self.views[key].append(name)
                self.emit('apply', key, name)

    def g_count(self):
        self.ncounts = getattr(self, 'ncounts', 0)
        if self.ncounts >= self.p.opts.get('ncounts', 4):
            return
        key = 'k%d' % self.ncounts
        self.ncounts += 1
        fs = self.r.sample(self.p.opts['cfilters'], self.r.choice([0, 1, 1, 2, 3]))
        self.emit('count', key, key if self.r.random() < .4 else None, fs)

    def g_cfilter(self):
        if getattr(self, 'ncounts', 0):
            self.emit('cfilter', 'k%d' % self.r.randrange(self.ncounts),
                      self.r.choice(['apply', 'unapply', 'unapply']),
                      self.r.choice(self.p.opts['cfilters'][:self.r.choice([3, 20])]))

    def g_note(self):
        kind = self.r.choice(self.p.opts['notes'])
        self.emit('note', kind, self.r.randrange(1 << 30))

    def g_drop(self):
        # the shadow does not know what is dropped where: it is only a guide
        self.emit('drop', self.r.randrange(1 << 30))
