"""Monitors of the GTK side: the tree model and the tree widget."""
import random

from . import env
from .monbase import Monitor, sig
from .viewspec import view_paths

env.load()
from gi.repository import GLib, Gtk  # noqa: E402
import liblarch_gtk  # noqa: E402
from liblarch_gtk.treemodel import TreeModel  # noqa: E402

CRITICALS = []
_installed = []


def watch_glib():
    """GLib/Gtk criticals and warnings as a sanitizer."""
    if _installed:
        return

    def handler(domain, level, message, *_):
        # What GTK keeps for assistive technologies is its own affair: it loses
        # track of cells when columns come and go
        if 'gtk/a11y/' not in message:
            CRITICALS.append('%s: %s' % (domain, message))
    levels = (GLib.LogLevelFlags.LEVEL_CRITICAL | GLib.LogLevelFlags.LEVEL_WARNING
              | GLib.LogLevelFlags.LEVEL_ERROR | GLib.LogLevelFlags.FLAG_RECURSION
              | GLib.LogLevelFlags.FLAG_FATAL)
    for dom in ('Gtk', 'GLib', 'GLib-GObject', 'Gdk', None):
        _installed.append(GLib.log_set_handler(dom, levels, handler, None))


def store_rows(model):
    """{path of ids: (child ids in row order, column values)}; a path that
    occurs twice is reported by the caller through the returned list."""
    rows, twice = {}, []

    def walk(it, prefix):
        kids = []
        while it is not None:
            vals = [model.get_value(it, c) for c in range(model.get_n_columns())]
            path = prefix + (vals[0],)
            kids.append(vals[0])
            if path in rows:
                twice.append(path)
            rows[path] = [None, vals, model.get_path(it).to_string()]
            rows[path][0] = walk(model.iter_children(it), path)
            it = model.iter_next(it)
        return tuple(kids)
    rows[()] = [walk(model.get_iter_first(), ()), [], '']
    return rows, twice


def hint(node):
    """A column function that sometimes has nothing to say."""
    return None if 'blue' in node.colors else '%s %d' % (
        ' '.join(sorted(node.colors)), node.version % 3)


class Hints(object):
    """What the column shows, row by row: the last thing its function said
    since the row was made."""

    def __init__(self, vs, tree):
        self.rows = {}
        self.tree = tree
        self.kept = 0
        self.fn = hint
        for ev, fn in (('added', self.added), ('deleted', self.deleted),
                       ('modified', self.modified)):
            vs.view.register_cllbck('node-%s-inview' % ev, fn)

    def added(self, nid, path):
        self.rows[path] = None
        self.modified(nid, path)

    def modified(self, nid, path):
        value = self.fn(self.tree.get_node(nid))
        if value is not None:
            self.rows[path] = value
        elif self.rows.get(path) is not None:
            self.kept += 1

    def deleted(self, nid, path):
        self.rows.pop(path, None)


def new_model(view):
    m = TreeModel(view, [[str, lambda n: n.label()], [str, hint], [int, lambda n: n.version]])
    m.connect_model()
    return m


class GtkModel(Monitor):
    """The rows of a tree model are the rows of its view, with current values."""
    sorted_by = None

    def __init__(self, world):
        Monitor.__init__(self, world)
        watch_glib()
        self.models = {}
        self.hints = {}

    def types(self):
        return [[str, lambda n: n.label()], [str, hint], [int, lambda n: n.version],
                [bool, lambda n: 'red' in n.colors]]

    def make(self, vs):
        m = TreeModel(vs.view, self.types())
        m.connect_model()
        return m

    def view_created(self, vs):
        self.hints[vs.key] = Hints(vs, self.w.tree)
        self.models[vs.key] = (vs, self.make(vs))

    def before_op(self, op, out):
        del CRITICALS[:]

    def check(self, vs, model):
        rows, twice = store_rows(model)
        if twice:
            return 'gtk-duplicate-row', 'view %s: row %r twice' % (vs.key, twice[0])
        want = dict(view_paths(vs.view))
        if set(want) != set(rows):
            return 'gtk-rows', 'view %s %s: rows missing %s, extra %s' % (
                vs.key, vs.filters, sorted(set(want) - set(rows))[:4],
                sorted(set(rows) - set(want))[:4])
        for path, kids in want.items():
            have = rows[path][0]
            if sorted(have) != sorted(kids) or (self.ordered and have != kids):
                return 'gtk-order', 'view %s: under %r rows %s, view %s' % (
                    vs.key, path, have, kids)
            if path:
                node = self.w.tree.get_node(path[-1])
                exp = [node.get_id()] + [
                    f(node) if f is not hint else self.hints[vs.key].rows.get(path)
                    for _, f in self.types()]
                if rows[path][1][:len(exp)] != exp:
                    return 'gtk-values', 'row %r shows %s, node has %s' % (
                        path, rows[path][1], exp)
                it = model.my_get_iter(path)
                if it is None or model.get_path(it).to_string() != rows[path][2]:
                    return 'gtk-iter', 'lookup of %r finds row %s, not %s' % (
                        path, it and model.get_path(it).to_string(), rows[path][2])
        self.count['rows'] += len(rows) - 1
        self.count['kept_values'] += self.hints[vs.key].kept
        self.hints[vs.key].kept = 0
        self.states.add(sig((vs.key, tuple(sorted((p, r[0]) for p, r in rows.items())))))
        return None
    ordered = True

    def after_op(self, op, out):
        if CRITICALS:
            self.fail('gtk-critical', '%s: %s' % (op, CRITICALS[0]))
        if out.exc is not None and out.status == 'ok':
            return
        for vs, model in self.models.values():
            self.count['model_comparisons'] += 1
            d = self.check(vs, model)
            if d:
                self.fail(*d)
                return


class GtkModelLife(GtkModel):
    """As GtkModel; models are attached late and repeatedly, and column
    functions are exchanged (note attach, again, column)."""

    def __init__(self, world):
        GtkModel.__init__(self, world)
        self.funcs = {}
        # all models are made from the same descriptions
        self.given = GtkModel.types(self)
        self.given[3] = tuple(self.given[3])

    def view_created(self, vs):
        # every other view gets its model later
        if len(self.w.views) % 2:
            GtkModel.view_created(self, vs)

    def make(self, vs):
        self.funcs[vs.key] = [list(t) for t in GtkModel.types(self)]
        m = TreeModel(vs.view, self.given)
        m.connect_model()
        self.count['attached_rows'] += len(vs.view.get_all_nodes())
        return m

    def check(self, vs, model):
        self.types = lambda: self.funcs[vs.key]
        return GtkModel.check(self, vs, model)

    def after_op(self, op, out):
        GtkModel.after_op(self, op, out)
        if self.fails or op[0] != 'note':
            return
        rng = random.Random(op[2])
        if op[1] == 'attach':
            free = sorted(k for k in self.w.views if k not in self.models)
            if not free:
                return
            GtkModel.view_created(self, self.w.views[rng.choice(free)])
            self.count['attached_late'] += 1
        elif op[1] == 'again' and self.models:
            vs, model = self.models[rng.choice(sorted(self.models))]
            model.connect_model()
            self.count['connected_again'] += 1
        elif op[1] == 'column' and self.models:
            key = rng.choice(sorted(self.models))
            vs, model = self.models[key]
            x = rng.randrange(100)
            col, fn = rng.choice([(1, lambda n: '%d %s' % (x, n.label())),
                                  (3, lambda n: n.version * 3 + x),
                                  (4, lambda n: len(n.colors) > x % 3)])
            if model.set_column_function(col, fn) is not True:
                self.fail('gtk-column', 'column %d cannot be set' % col)
            if model.set_column_function(5 + x, fn) is not False:
                self.fail('gtk-column', 'column %d can be set' % (4 + x))
            self.funcs[key][col - 1][1] = fn
            self.w.call(self.w.tree.refresh_all)
            self.count['columns_exchanged'] += 1
        GtkModel.after_op(self, op, out)

    def finish(self):
        for key in sorted(self.w.views):
            if key not in self.models:
                GtkModel.view_created(self, self.w.views[key])
                self.count['attached_late'] += 1
        GtkModel.after_op(self, ['finish'], Quiet)


class Quiet(object):
    exc = None
    status = 'ok'
