"""The tree widget: sorting, drag and drop, selection, folding."""
import collections
import copy
import random
import sys
import time

from . import env
from .mon_callbacks import drain
from .mon_gtk import GtkModel, hint, store_rows
from .monbase import Monitor, sig
from .world import NOOP, World

env.load()
from gi.repository import Gdk, Gtk  # noqa: E402
import liblarch_gtk  # noqa: E402

ASC, DESC = Gtk.SortType.ASCENDING, Gtk.SortType.DESCENDING


def cmp(a, b):
    return (a > b) - (a < b)


def by_label(a, b, order):
    return cmp(a.label(), b.label())


def by_colors(a, b, order):
    """Ties broken by the version."""
    return cmp((len(a.colors), a.version), (len(b.colors), b.version))


def red_first(a, b, order):
    """Red ones first in either direction, as GTG does with urgent tasks."""
    x = cmp('red' not in a.colors, 'red' not in b.colors)
    if order == DESC:
        x = -x
    return x or cmp(a.get_id(), b.get_id())


FUNCS = {'label': by_label, 'colors': by_colors, 'red': red_first, 'version': None}


def by_version(a, b, order):
    return cmp(a.version, b.version)


def unseen():
    """Columns that do not show what they are sorted by."""
    return {
        'label': {'value': [str, lambda n: n.get_id()], 'order': 1,
                  'renderer': ['text', Gtk.CellRendererText()], 'sorting_func': by_label},
        'version': {'value': [int, lambda n: 0], 'order': 0,
                    'renderer': ['text', Gtk.CellRendererText()], 'sorting_func': by_version},
        'colors': {'value': [str, lambda n: ' '.join(sorted(n.colors))], 'order': 2,
                   'renderer': ['text', Gtk.CellRendererText()], 'sorting_func': by_colors},
        'red': {'value': [str, lambda n: None], 'order': 3,
                'renderer': ['text', Gtk.CellRendererText()], 'sorting_func': red_first},
    }


def described():
    """Columns sorted by others, which come earlier or later."""
    d = description()
    d['mark'] = {'value': [str, lambda n: '*'], 'order': -1, 'sorting': 'version', 'title': 'm',
                 'renderer': ['text', Gtk.CellRendererText()]}
    d['tail'] = {'value': [int, lambda n: 7], 'order': 9, 'sorting': 'red',
                 'renderer': ['text', Gtk.CellRendererText()]}
    return d


def description():
    return {
        'label': {'value': [str, lambda n: n.label()], 'order': 1,
                  'renderer': ['text', Gtk.CellRendererText()], 'sorting_func': by_label},
        'version': {'value': [int, lambda n: n.version], 'order': 0, 'sorting': 'version',
                    'renderer': ['text', Gtk.CellRendererText()]},
        'colors': {'value': [str, lambda n: ' '.join(sorted(n.colors))], 'order': 2,
                   'renderer': ['text', Gtk.CellRendererText()], 'sorting_func': by_colors},
        'red': {'value': [bool, lambda n: 'red' in n.colors], 'order': 3,
                'renderer': ['active', Gtk.CellRendererToggle()], 'sorting_func': red_first},
    }


class Hooked(object):
    """Exceptions in Gtk callbacks go to sys.excepthook."""

    def __init__(self):
        self.caught = []
        sys.excepthook = self.hook

    def hook(self, kind, value, tb):
        self.caught.append('%s: %s' % (kind.__name__, value))


class Widget(GtkModel):
    """A tree widget on every view."""
    ordered = False

    def describe(self, vs):
        return description()

    def check(self, vs, model):
        d = self.describe(vs)
        self.types = lambda: [d[k]['value'] for k in sorted(d, key=lambda k: d[k]['order'])]
        return GtkModel.check(self, vs, model)

    def __init__(self, world):
        GtkModel.__init__(self, world)
        self.hook = Hooked()
        self.tv = {}
        world.widgets = self.tv

    def make(self, vs):
        tv = liblarch_gtk.TreeView(vs.view, self.describe(vs))
        self.tv[vs.key] = tv
        return tv.get_model()

    def before_op(self, op, out):
        GtkModel.before_op(self, op, out)
        del self.hook.caught[:]

    def after_op(self, op, out):
        GtkModel.after_op(self, op, out)
        if op[0] == 'drop' and out.status == 'ok':
            self.count['rows_dropped'] += self.w.dropped
        if self.hook.caught:
            self.fail('widget-exception', 'after %s: %s' % (op, self.hook.caught[0]))


class Sorted(Widget):
    """Siblings are in order at all times."""

    def __init__(self, world):
        Widget.__init__(self, world)
        self.sort = {}
        self.variant = {}
        self.clicked = set()    # views sorted by a click on a header

    def describe(self, vs):
        k = (len(self.tv) + len(self.w.model.ids())) % 3
        return (unseen, description, described)[self.variant.setdefault(vs.key, k)]()

    def check(self, vs, model):
        d = Widget.check(self, vs, model)
        if d:
            return d
        col, order = self.sort.get(vs.key, (None, ASC))
        tv = self.tv[vs.key]
        if col is None:
            return None
        if not vs.key in self.clicked and tv.get_sort_column() != (col, order):
            return 'sort-column', 'view %s is sorted by %s, says %s' % (
                vs.key, (col, order), tv.get_sort_column())
        tree = self.w.tree
        rows, _ = store_rows(model)
        for path, (kids, _, _) in rows.items():
            for a, b in zip(kids, kids[1:]):
                na, nb = tree.get_node(a), tree.get_node(b)
                if FUNCS[col]:
                    x = FUNCS[col](na, nb, order)
                else:
                    x = cmp(na.version, nb.version)
                if order == DESC:
                    x = -x
                self.count['sorted_pairs'] += 1
                if x > 0:
                    return 'sort-order', 'view %s sorted by %s %s: %s comes before %s' % (
                        vs.key, col, order.value_nick, na.label(), nb.label())
        return None

    def after_op(self, op, out):
        Widget.after_op(self, op, out)
        if op[0] == 'note' and op[1] == 'sort' and self.tv and not self.fails:
            rng = random.Random(op[2])
            key = rng.choice(sorted(self.tv))
            col, order = rng.choice(sorted(FUNCS)), rng.choice([ASC, DESC])
            if rng.random() < .35:
                order = self.click(self.tv[key], col, rng)
                self.clicked.add(key)
                self.count['header_clicks'] += 1
            else:
                self.tv[key].set_sort_column(col, order)
                self.clicked.discard(key)
            self.sort[key] = (col, order)
            self.count['sort_changes'] += 1
            Widget.after_op(self, op, out)

    def click(self, tv, col, rng):
        """What a click on the header of a column does"""
        d = self.describe_of(tv)
        names = sorted(d, key=lambda k: d[k]['order'])
        by = [n for n in names if d[n].get('sorting', n) == col]
        heads = dict(zip(names, Gtk.TreeView.get_columns(tv)))
        name = rng.choice(by)
        column = heads[name]
        if column.get_sort_column_id() != names.index(col) + 1:
            self.fail('sort-click', 'the header of %s sorts by column %s, not %s' % (
                name, column.get_sort_column_id(), col))
            return ASC
        column.set_clickable(True)
        column.clicked()
        now, order = tv.get_model().get_sort_column_id()
        if now != names.index(col) + 1:
            self.fail('sort-click', 'a click on the header of %s sorts by column %s' % (
                name, now))
        return order

    def describe_of(self, tv):
        return self.describe(next(self.w.views[k] for k in self.tv if self.tv[k] is tv))


class Selection(object):
    """Stands in for Gtk.SelectionData"""

    def __init__(self, data=b''):
        self.data = data

    def set(self, target, fmt, data):
        self.data = data

    def get_target(self):
        return None

    def get_data(self):
        return self.data


POS = {'before': Gtk.TreeViewDropPosition.BEFORE, 'after': Gtk.TreeViewDropPosition.AFTER,
       'into': Gtk.TreeViewDropPosition.INTO_OR_BEFORE,
       'into2': Gtk.TreeViewDropPosition.INTO_OR_AFTER}


class WidgetWorld(World):
    """World with the things one can do to the widgets."""
    widgets = {}
    dropped = 0

    def op_drop(self, seed):
        """A row is dragged onto another place."""
        if not self.widgets:
            return None
        rng = random.Random(seed)
        key = rng.choice(sorted(self.widgets))
        tv = self.widgets[key]
        model = tv.get_model()
        rows, _ = store_rows(model)
        paths = sorted(p for p in rows if p)
        if not paths:
            return None
        src, dst = [rng.choice(paths)], rng.choice(paths)
        if rng.random() < .35:
            src = self.several(rng, paths, rows)
        pos = rng.choice(['before', 'after', 'into', 'into2', 'outside'])
        if pos == 'outside':
            parent, info = None, None
        else:
            parent = dst[-1] if pos.startswith('into') else (
                dst[-2] if len(dst) > 1 else None)
            info = (Gtk.TreePath(rows[dst][2]), POS[pos])
        ids = [p[-1] for p in src]
        # what the moves come to, one after the other
        real, self.model = self.model, copy.deepcopy(self.model)
        try:
            noop = True
            for i in ids:
                plan = World.op_move(self, i, parent, 'tree')
                if plan is None:
                    return None
                if plan[0] == 'ok' and plan[2] is not None:
                    plan[2]()
                    noop = False
            result = self.model
        finally:
            self.model = real
        where = ','.join(rows[p][2] for p in src)
        self.dropped = len(src)

        def thunk():
            data = Selection()
            sel = tv.get_selection()
            if len(ids) > 1:
                tv.set_multiple_selection(True)
            sel.unselect_all()
            for p in src:
                sel.select_path(Gtk.TreePath(rows[p][2]))
            if sorted(tv.get_selected_nodes()) == sorted(ids):
                tv.on_drag_data_get(tv, None, data, 0, 0)
            else:
                data.data = where.encode('ascii')      # a folded row
            tv.get_dest_row_at_pos = lambda x, y: info
            try:
                tv.on_drag_data_received(tv, None, 1, 1, data, 0, 0)
            finally:
                del tv.get_dest_row_at_pos
        if noop:
            return 'ok', thunk, None, NOOP
        return 'ok', thunk, lambda: real.__dict__.update(result.__dict__)

    def several(self, rng, paths, rows):
        """Rows that can be moved one after the other: none disappears because
        another one is moved."""
        per = collections.Counter(p[-1] for p in paths)
        some = []
        for p in rng.sample(paths, len(paths)):
            if per[p[-1]] == 1 and not any(
                    p[:len(q)] == q or q[:len(p)] == p for q in some):
                some.append(p)
            if len(some) == 3:
                break
        return sorted(some or [rng.choice(paths)],
                      key=lambda p: [int(x) for x in rows[p][2].split(':')])


class Folding(Widget):
    """Selection and folding.

    note collapse, expand, select; the main loop is run after every request."""

    def __init__(self, world):
        Widget.__init__(self, world)
        self.collapsed = {}     # view -> ids that are to stay folded
        self.loose = {}         # view -> rows that were inside a folded one
        self.weak = {}          # view -> ids whose rows fold all below them once

    def expect(self, vs, model):
        """Rows that must be folded, rows that must be unfolded."""
        tv = self.tv[vs.key]
        want = self.collapsed.get(vs.key, set())
        rows, _ = store_rows(model)
        loose = self.loose.setdefault(vs.key, set())
        weak = self.weak.get(vs.key, ())
        loose &= {p for p in rows if rows[p][0]}
        for path, (kids, _, where) in rows.items():
            if not path or not kids:
                continue
            if any(p in want or p in weak for p in path[:-1]) or any(
                    path[:k] in loose and not tv.row_expanded(Gtk.TreePath(rows[path[:k]][2]))
                    for k in range(1, len(path))):
                continue        # inside a folded row
            open_ = tv.row_expanded(Gtk.TreePath(where))
            if path[-1] in want:
                self.count['folded_rows'] += 1
                if open_:
                    return 'fold-open', 'view %s: row %r of a collapsed node is unfolded' % (
                        vs.key, path)
            elif path not in loose:
                self.count['unfolded_rows'] += 1
                if not open_:
                    return 'fold-closed', 'view %s: row %r is folded, collapsed are %s' % (
                        vs.key, path, sorted(want))
        return None

    def check(self, vs, model):
        return Widget.check(self, vs, model) or self.expect(vs, model)

    def after_op(self, op, out):
        if out.exc is None or out.status != 'ok':
            if not self.w.call(drain):
                self.fail('widget-loop', 'the main loop never gets idle')
        Widget.after_op(self, op, out)
        if self.fails or op[0] != 'note' or not self.tv:
            return
        rng = random.Random(op[2])
        key = rng.choice(sorted(self.tv))
        tv, vs = self.tv[key], self.w.views[key]
        if op[1] == 'collapse':
            ids = sorted(set(self.w.model.ids()) | set(self.w.removed) | {'n1', 'n2'})
            i = rng.choice(ids)
            if not vs.view.is_displayed(i):
                self.count['collapse_before'] += 1
            path = ('x', i) if rng.random() < .3 else (i,)
            self.w.call(tv.collapse_node, path)
            self.collapsed.setdefault(key, set()).add(i)
            self.count['collapse'] += 1
            self.w.call(drain)
            Widget.after_op(self, op, out)
        elif op[1] == 'expand':
            ids = sorted(self.collapsed.get(key, ()))
            if not ids or rng.random() < .3:
                ids = sorted(set(self.w.model.ids()) | set(self.w.removed) | {'n1', 'n2'})
            i = rng.choice(ids)
            self.w.call(tv.expand_node, ('x', i) if rng.random() < .3 else (i,))
            self.w.call(drain)
            self.count['expand' if i in self.collapsed.get(key, ()) else 'expand_open'] += 1
            if i in self.collapsed.get(key, ()) and not vs.view.is_displayed(i):
                # folded and unfolded as soon as it appears
                self.weak.setdefault(key, set()).add(i)
            self.collapsed.get(key, set()).discard(i)
            # what is below was folded along and is left as it is
            rows, _ = store_rows(tv.get_model())
            loose = self.loose.setdefault(key, set())
            for path in rows:
                if not path:
                    continue
                up = [path[:k] for k in range(1, len(path))]
                hidden = any(not tv.row_expanded(Gtk.TreePath(rows[u][2])) for u in up)
                if i in path[:-1] or path[-1] == i and hidden:
                    loose.add(path)
                elif path[-1] == i:
                    loose.discard(path)
            Widget.after_op(self, op, out)
        elif op[1] == 'select':
            sel = tv.get_selection()
            multi = rng.random() < .6
            tv.set_multiple_selection(multi)
            sel.unselect_all()
            rows, _ = store_rows(tv.get_model())
            want = []
            for path in sorted(p for p in rows if p):
                if rng.random() < .4:
                    tp = Gtk.TreePath(rows[path][2])
                    sel.select_path(tp)
                    if sel.path_is_selected(tp):
                        want = (want if multi else []) + [path[-1]]
            got = tv.get_selected_nodes()
            self.count['selected'] += len(got)
            if sorted(got) != sorted(want):
                self.fail('selection', 'view %s: selected %s, reported %s' % (key, want, got))
            sel.unselect_all()
            if tv.get_selected_nodes() != []:
                self.fail('selection', 'nothing selected, reported %s' % tv.get_selected_nodes())


def paint(node, default):
    """Colour of a row; none for some, dark ones and light ones."""
    return [None, '#101010', '#fefefe', 'white', 'navy', '#ff8040', '#00b000', None][
        (len(node.colors) * 3 + node.version) % 8]


def dark(color):
    r, g, b = Gdk.RGBA(), None, None
    r.parse(color)
    return .2126 * r.red + .7152 * r.green + .0722 * r.blue < .5


def bar(node):
    return 'green' in node.colors


class Services(Widget):
    """Columns, colours, separators, folding signals and drops from other
    widgets.

    note fold, xdrop, paint, look"""

    def __init__(self, world):
        Widget.__init__(self, world)
        self.signals = {}
        self.calls = []
        self.painted = set()    # views with a background colour
        self.descs = {}
        self.barred = set()
        self.thin = {}          # how high separators were
        self.window = {}
        self.shown = {}         # columns shown and hidden, made resizable later
        self.resizable = {}
        # the columns of all widgets are made from the same pairs
        self.values = {
            'label': (str, lambda n: n.label()), 'version': [int, lambda n: n.version],
            'tags': [str, lambda n: ' '.join(sorted(n.colors))],
            'bg': [str, lambda n: None], 'on': (bool, bar)}

    def describe(self, vs):
        if vs.key in self.descs:
            return self.descs[vs.key]
        rng = random.Random(repr((len(self.descs), vs.filters, sorted(self.w.model.ids()),
                                  sorted(self.w.model.edges()))))
        cells = [
            ('label', {'expandable': True}), ('tags', {}), ('version', {}),
            ('bg', {'visible': False}),
            ('on', {'renderer': ['active', Gtk.CellRendererToggle()]}),
        ]
        rng.shuffle(cells)
        d = dict(cells)
        for name in d:
            if rng.random() < .7:
                d[name]['order'] = rng.choice([0, 0, 1, 2, 2, 3, 5, 9, -1])
            if rng.random() < .3:
                d[name]['new_column'] = rng.random() < .3
            if name != 'bg' and rng.random() < .3:
                d[name]['visible'] = rng.random() < .5
            if rng.random() < .3:
                d[name]['title'] = name.title()
            if rng.random() < .3:
                d[name]['resizable'] = rng.random() < .5
            d[name].setdefault('renderer', ['text', Gtk.CellRendererText()])
            v = self.values[name]
            # pairs are lists or tuples
            d[name]['value'] = v if rng.random() < .8 else tuple(v)
        self.descs[vs.key] = d
        return d

    def order(self, vs):
        """Columns by their order; those without one last, as they come."""
        d = self.descs[vs.key]
        names = [n for n in d if 'order' not in d[n]]
        # same order: by name
        return sorted((n for n in d if 'order' in d[n]), key=lambda n: (d[n]['order'], n)) + names

    def make(self, vs):
        self.hints[vs.key].fn = lambda n: None
        tv = liblarch_gtk.TreeView(vs.view, self.describe(vs))
        tv.set_can_focus(False)
        self.tv[vs.key] = tv
        self.signals[vs.key] = []
        tv.connect('node-expanded', self.signal, vs.key, 'expanded')
        tv.connect('node-collapsed', self.signal, vs.key, 'collapsed')
        tv.set_dnd_name('larchmon/%s' % vs.key)
        for k in range(2):
            tv.set_dnd_external('larchmon/x%d' % k, lambda src, dst, k=k, key=vs.key:
                                self.calls.append((key, k + 1, src, dst)))
        return tv.get_model()

    def signal(self, tv, path, key, what):
        self.count['fold_signals'] += 1
        self.signals[key].append((what, path))
        rows, _ = store_rows(tv.get_model())
        if path not in [str(p) for p in rows]:
            self.fail('signal-path', '%s announced for %s, the rows are %s' % (
                what, path, sorted(map(str, rows))[:6]))

    def before_op(self, op, out):
        Widget.before_op(self, op, out)
        del self.calls[:]

    def check(self, vs, model):
        tv, d = self.tv[vs.key], self.describe(vs)
        names = self.order(vs)
        values = [list(d[n]['value']) for n in names]
        values[names.index('bg')][1] = hint     # see Hints
        self.types = lambda: values
        f = GtkModel.check(self, vs, model)
        if f:
            return f
        if tv.get_columns() != names:
            return 'columns', 'the columns are %s, should be %s' % (tv.get_columns(), names)
        shown = []
        for n in names:
            if d[n].get('new_column', True) or not shown:
                shown.append([])
            shown[-1].append(n)
        cols = Gtk.TreeView.get_columns(tv)
        if [len(c.get_cells()) for c in cols] != [len(s) for s in shown]:
            return 'columns', 'columns of %s cells, should be %s' % (
                [len(c.get_cells()) for c in cols], shown)
        for c, s in zip(cols, shown):
            if len(s) == 1:
                want = self.shown.get((vs.key, s[0]), d[s[0]].get('visible', True))
                if c.get_visible() != want or (
                        c.get_title() != d[s[0]].get('title', '') or
                        c.get_resizable() != self.resizable.get(
                            (vs.key, s[0]), d[s[0]].get('resizable', True))):
                    return 'columns', 'column %s is visible: %s, resizable: %s, titled %r' % (
                        s[0], c.get_visible(), c.get_resizable(), c.get_title())
        return None

    def cells(self, vs):
        """What is drawn."""
        tv, d, names = self.tv[vs.key], self.descs[vs.key], self.order(vs)
        model = tv.get_model()
        rows, _ = store_rows(model)
        cells = []
        for c in Gtk.TreeView.get_columns(tv):
            cells += [(c, r) for r in c.get_cells()]
        for path, (_, vals, where) in rows.items():
            if not path:
                continue
            it = model.get_iter(Gtk.TreePath(where))
            color = None
            if vs.key in self.painted:
                color = self.hints[vs.key].rows.get(path)
            for name, (col, cell) in zip(names, cells):
                if cell is not d[name]['renderer'][1]:
                    return 'cells', 'column %s is drawn by another cell' % name
                col.cell_set_cell_data(model, it, False, False)
                value = vals[1 + names.index(name)]
                got = cell.get_property(d[name]['renderer'][0])
                self.count['cells_drawn'] += 1
                if (got or '') != (str(value or '') if name != 'version' else str(value)) \
                        and name != 'on':
                    return 'cells', 'cell %s of %r shows %r, the value is %r' % (
                        name, path, got, value)
                if name == 'on' and got != value:
                    return 'cells', 'cell %s of %r is %r, the value is %r' % (
                        name, path, got, value)
                if vs.key not in self.painted:
                    continue
                if cell.get_property('cell-background-set') != (color is not None):
                    return 'background', 'cell %s of %r, colour %s, has a background: %s' % (
                        name, path, color, cell.get_property('cell-background-set'))
                if color is None:
                    light = False
                else:
                    want, have = Gdk.RGBA(), cell.get_property('cell-background-rgba')
                    want.parse(color)
                    if max(abs(want.red - have.red), abs(want.green - have.green),
                           abs(want.blue - have.blue)) > .01:
                        return 'background', 'cell %s of %r is %s, should be %s' % (
                            name, path, have.to_string(), color)
                    light = dark(color)
                    self.count['coloured'] += 1
                if name != 'on' and cell.get_property('foreground-set') != light:
                    return 'foreground', 'cell %s of %r on %s has its own text colour: %s' % (
                        name, path, color, cell.get_property('foreground-set'))
        return None

    def heights(self, vs):
        """Separators are thin."""
        tv = self.tv[vs.key]
        if not any(c.get_visible() and self.descs[vs.key]['label']['renderer'][1] in c.get_cells()
                   for c in Gtk.TreeView.get_columns(tv)):
            return None         # rows without text
        if vs.key not in self.window:
            self.window[vs.key] = Gtk.OffscreenWindow()
            self.window[vs.key].add(tv)
            self.window[vs.key].show_all()
        tv.queue_resize()
        # rows are measured when Gtk finds the time
        end = time.monotonic() + 5
        again = True
        while True:
            self.w.call(drain)
            hs = self.measure(vs, tv)
            thin = hs[True] or self.thin.get(vs.key, [])
            wrong = thin and hs[False] and max(thin) >= min(hs[False])
            if not wrong or time.monotonic() > end:
                break
            time.sleep(.01)
            if again:
                again = False
                # that Gtk measures changed rows again is not ours to judge
                rows, _ = store_rows(tv.get_model())
                for path, (_, _, where) in rows.items():
                    if path:
                        tp = Gtk.TreePath(where)
                        tv.get_model().row_changed(tp, tv.get_model().get_iter(tp))
                tv.queue_resize()
        self.count['separators'] += len(hs[True])
        self.count['not_separators'] += bool(self.thin.get(vs.key) and not hs[True]) and len(
            hs[False])
        if wrong:
            return 'separator', 'rows are %s pixels high, separators %s' % (
                sorted(hs[False]), sorted(thin))
        if hs[True] and hs[False]:
            self.thin[vs.key] = hs[True]
        return None

    def measure(self, vs, tv):
        rows, _ = store_rows(tv.get_model())
        hs = {True: [], False: []}
        for path, (_, _, where) in rows.items():
            if path and all(tv.row_expanded(Gtk.TreePath(rows[path[:k]][2]))
                            for k in range(1, len(path))):
                h = tv.get_background_area(Gtk.TreePath(where), None).height
                if h:
                    is_bar = vs.key in self.barred and bar(self.w.tree.get_node(path[-1]))
                    hs[is_bar].append(h)
        return hs

    def after_op(self, op, out):
        Widget.after_op(self, op, out)
        if self.calls:
            self.fail('external-drop', '%s dropped %s' % (op, self.calls[0]))
        if self.fails or op[0] != 'note' or not self.tv:
            return
        if not self.w.call(drain):
            self.fail('widget-loop', 'the main loop never gets idle')
        rng = random.Random(op[2])
        key = rng.choice(sorted(self.tv))
        tv, vs = self.tv[key], self.w.views[key]
        getattr(self, 'note_' + op[1])(rng, key, tv, vs)
        Widget.after_op(self, op, out)

    def note_fold(self, rng, key, tv, vs):
        rows, _ = store_rows(tv.get_model())
        paths = [p for p in sorted(rows) if p and rows[p][0] and all(
            tv.row_expanded(Gtk.TreePath(rows[p[:k]][2])) for k in range(1, len(p)))]
        for path in rng.sample(paths, min(2, len(paths))):
            tp = Gtk.TreePath(rows[path][2])
            if not all(tv.row_expanded(Gtk.TreePath(rows[path[:k]][2]))
                       for k in range(1, len(path))):
                continue        # folded away meanwhile
            was = tv.row_expanded(tp)
            del self.signals[key][:]
            if was:
                tv.collapse_row(tp)
            else:
                tv.expand_row(tp, False)
            want = [('collapsed' if was else 'expanded', str(path))]
            self.count['folded'] += 1
            if self.signals[key] != want:
                self.fail('signal', 'view %s: row %r was %s, announced: %s' % (
                    key, path, want[0][0], self.signals[key]))

    def note_xdrop(self, rng, key, tv, vs):
        """Rows of one widget are dropped on another."""
        src_key = rng.choice(sorted(self.tv))
        src = self.tv[src_key]
        srows, _ = store_rows(src.get_model())
        drows, _ = store_rows(tv.get_model())
        dpaths = sorted(p for p in drows if p)
        if not dpaths:
            return
        sel = src.get_selection()
        src.set_multiple_selection(True)
        sel.unselect_all()
        for p in sorted(p for p in srows if p):
            if rng.random() < .3:
                sel.select_path(Gtk.TreePath(srows[p][2]))
        # separators cannot be selected (nor unselected)
        at = {r[2]: p[-1] for p, r in srows.items() if p}
        chosen = [at[tp.to_string()] for tp in sel.get_selected_rows()[1]]
        data = Selection()
        src.on_drag_data_get(src, None, data, 0, 0)
        dst = rng.choice(dpaths)
        pos = rng.choice(['before', 'after', 'into', 'into2', 'outside'])
        if pos == 'outside':
            parent, where = None, None
        else:
            parent = dst[-1] if pos.startswith('into') else (dst[-2] if len(dst) > 1 else None)
            where = (Gtk.TreePath(drows[dst][2]), POS[pos])
        target = rng.choice([1, 2, 2, None])
        info = 77
        own = [n for n, t in self.tv.items() if not t.drag_dest_get_target_list().find(
            Gdk.Atom.intern('larchmon/%s' % n, False))[0]]
        if own:
            self.fail('external-drop', 'rows of %s cannot be dropped there' % own)
            return
        if target:
            name = Gdk.Atom.intern('larchmon/x%d' % (target - 1), False)
            found, info = tv.drag_dest_get_target_list().find(name)
            if not found or not src.drag_source_get_target_list().find(name)[0]:
                self.fail('external-drop', 'target %d is not offered or accepted' % target)
                return
        before = self.w.real_main()
        tv.get_dest_row_at_pos = lambda x, y: where
        real, Gtk.drag_get_source_widget = Gtk.drag_get_source_widget, lambda context: src
        try:
            tv.on_drag_data_received(tv, None, 1, 1, data, info, 0)
        except Exception as exc:
            self.fail('external-drop', 'rows %s dropped on %s raised %s: %s' % (
                chosen, parent, type(exc).__name__, exc))
        finally:
            Gtk.drag_get_source_widget = real
            del tv.get_dest_row_at_pos
        sel.unselect_all()
        want = [(key, target, i, parent) for i in chosen if parent is not None and target]
        self.count['external_drops'] += 1
        self.count['rows_handed_over'] += len(want)
        if self.calls != want:
            self.fail('external-drop', 'rows %s dropped on %s (%s, target %d): %s' % (
                chosen, parent, pos, info, self.calls))
        del self.calls[:]
        if self.w.real_main() != before:
            self.fail('external-drop', 'a drop from another widget changed the tree')

    def note_cols(self, rng, key, tv, vs):
        names = self.order(vs)
        n = rng.choice(names)
        what = rng.choice(['visible', 'visible', 'resizable', 'search', 'expander'])
        self.count['columns_changed'] += 1
        col = next(c for c in Gtk.TreeView.get_columns(tv)
                   if self.descs[key][n]['renderer'][1] in c.get_cells())
        flag = rng.random() < .5
        if what == 'visible':
            tv.set_col_visible(n, flag)
            self.shown[key, n] = flag
            ok = col.get_visible() == flag
        elif what == 'resizable':
            tv.set_col_resizable(n, flag)
            self.resizable[key, n] = flag
            ok = col.get_resizable() == flag
        elif what == 'search':
            tv.set_main_search_column(n)
            ok = tv.get_search_column() == 1 + names.index(n)
        else:
            tv.set_expander_column(n)
            ok = tv.get_expander_column() == col
        if not ok:
            self.fail('columns', 'view %s: %s of column %s was not changed' % (key, what, n))

    def note_paint(self, rng, key, tv, vs):
        try:
            tv.set_bg_color(paint, 'no such column')
            self.fail('paint', 'a column that is not there was accepted')
        except ValueError:
            pass
        tv.set_bg_color(paint, 'bg')
        self.hints[key].fn = lambda n: paint(n, None)
        self.painted.add(key)
        self.w.call(self.w.tree.refresh_all)
        self.count['painted'] += 1

    def note_look(self, rng, key, tv, vs):
        d = self.cells(vs)
        if d:
            self.fail(d[0], 'view %s: %s' % (key, d[1]))
            return
        x = rng.random()
        if x < .3 and key not in self.barred:
            tv.set_row_separator_func(bar)
            self.barred.add(key)
        elif x < .4 and key in self.barred:
            tv.set_row_separator_func(None)
            self.barred.discard(key)
        d = self.heights(vs)
        if d:
            self.fail(d[0], 'view %s: %s' % (key, d[1]))
