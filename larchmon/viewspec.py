"""The specification of a view, as a function of the main tree and the filters
in force, and reading the real view through its public interface."""
from .monbase import sig


def spec_shown(world, vs):
    ids = world.tree.get_main_view().get_all_nodes()
    return {i for i in ids if all(world.node_passes(f, i) for f in vs.filters)}


def diff_displayed(world, vs):
    """Does the view show exactly the nodes that pass its filters?"""
    shown = spec_shown(world, vs)
    view = vs.view
    real = view.get_all_nodes()
    if len(set(real)) != len(real):
        return 'duplicates', 'displayed twice: %s' % sorted(real)
    if set(real) != shown:
        return 'displayed', 'view %s %s shows %s, should show %s' % (
            vs.key, vs.filters, sorted(real), sorted(shown))
    for i in world.tree.get_main_view().get_all_nodes():
        if view.is_displayed(i) != (i in shown):
            return 'is-displayed', 'view %s: is_displayed(%s) is %s' % (
                vs.key, i, view.is_displayed(i))
    for i in world.removed:
        if not world.tree.has_node(i) and view.is_displayed(i):
            return 'ghost', 'view %s displays %s, which is not in the tree' % (vs.key, i)
    reach = {p[-1] for p, _ in view_paths(view) if p}
    if reach != shown:
        return 'unreachable', 'view %s %s: rows for %s, nodes shown %s' % (
            vs.key, vs.filters, sorted(reach), sorted(shown))
    return None


def diff_placement(world, vs):
    """Is every displayed node under exactly its displayed parents?"""
    view, tree = vs.view, world.tree
    flat = world.is_flat(vs)
    shown = [i for i in view.get_all_nodes() if tree.has_node(i)]
    sset = set(shown)
    top, children = set(), {i: set() for i in shown}
    for i in shown:
        want = set() if flat else {
            p for p in tree.get_node(i).get_parents() if p in sset}
        for p in want:
            children[p].add(i)
        if not want:
            top.add(i)
        ps = view.node_parents(i)
        if len(set(ps)) != len(ps) or set(ps) != want:
            return 'parents', 'view %s %s: parents of %s are %s, should be %s' % (
                vs.key, vs.filters, i, ps, sorted(want))
        if view.node_has_parent(i) != bool(want):
            return 'has-parent', 'view %s: node_has_parent(%s) is %s' % (
                vs.key, i, view.node_has_parent(i))
    for i in shown:
        cs = view.node_all_children(i)
        if len(set(cs)) != len(cs) or set(cs) != children[i]:
            return 'children', 'view %s %s: children of %s are %s, should be %s' % (
                vs.key, vs.filters, i, cs, sorted(children[i]))
    ts = view.node_all_children()
    if len(set(ts)) != len(ts) or set(ts) != top:
        return 'toplevel', 'view %s %s: top level is %s, should be %s' % (
            vs.key, vs.filters, ts, sorted(top))
    return None


def view_paths(view):
    """All rows of the view, [(path, children in order)], by walking down from
    the top level."""
    rows = [((), tuple(view.node_all_children()))]
    stack = [(c,) for c in reversed(rows[0][1])]
    while stack:
        path = stack.pop()
        kids = tuple(view.node_all_children(path[-1]))
        rows.append((path, kids))
        if len(rows) > 20000:
            raise RuntimeError('view has too many rows')
        stack.extend(path + (c,) for c in reversed(kids))
    return rows


def structure(view):
    """The view as a set of (node, parents), order left aside."""
    return {i: tuple(sorted(view.node_parents(i))) for i in view.get_all_nodes()}


def digest(world, vs):
    return sig((tuple(sorted(structure(vs.view).items())), tuple(sorted(vs.filters))))
