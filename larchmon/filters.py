"""Filter functions used by the workloads.

Every filter looks only at the node's own content and at its descendants, the
class of filters liblarch keeps up to date by propagating changes upwards.
"""
import random


def _kids(node):
    tree = node.get_tree()
    return [tree.get_node(c) for c in node.get_children()]


def red(node, parameters=None):
    return 'red' in node.colors


def blue(node, parameters=None):
    return 'blue' in node.colors


def green(node, parameters=None):
    return 'green' in node.colors


def everything(node, parameters=None):
    return True


def plain_blue(node):
    # a filter without a `parameters` argument is legal too
    return 'blue' in node.colors


def truthy(node, parameters=None):
    # any truth value will do
    return node.colors & {'red', 'green'}


def said(node, parameters=None):
    # a function that says nothing says no
    if node.colors & {'blue', 'green'}:
        return 'yes'


def leaf(node, parameters=None):
    return not node.has_child()


def red_leaf(node, parameters=None):
    if any('red' in k.colors for k in _kids(node)):
        return False
    return 'red' in node.colors


def deep_red(node, parameters=None):
    return 'red' in node.colors or any(deep_red(k) for k in _kids(node))


def team(node, parameters=None):
    # as in examples/contact_list: shown for its own sake or because of a child
    return 'blue' in node.colors or any('red' in k.colors for k in _kids(node))


def few_kids(node, parameters=None):
    return node.get_n_children() < 2


def _below(node):
    # every node below, however many ways lead there
    seen, todo = {}, _kids(node)
    while todo:
        k = todo.pop()
        if k.get_id() not in seen:
            seen[k.get_id()] = k
            todo += _kids(k)
    return seen.values()


def two_reds(node, parameters=None):
    return 'blue' in node.colors or sum('red' in k.colors for k in _below(node)) >= 2


def odd_reds(node, parameters=None):
    return ('red' in node.colors) != sum('red' in k.colors for k in _below(node)) % 2


def far_green(node, parameters=None):
    # not the children, but those below them
    return 'red' in node.colors or any(
        'green' in g.colors for k in _kids(node) for g in _kids(k))


def moody(node, parameters=None):
    # the same change below shows some nodes and hides others
    has = any('green' in k.colors for k in _below(node))
    return 'red' in node.colors or has == ('blue' in node.colors)


def by_param(node, parameters=None):
    return bool(parameters) and parameters.get('color') in node.colors


# name -> (function, default parameters, looks at descendants?)
FILTERS = {
    'red': (red, None, False),
    'blue': (blue, None, False),
    'green': (green, None, False),
    'pblue': (plain_blue, None, False),
    'notred': (red, {'negate': True}, False),
    'notgreen': (green, {'negate': True, 'x': 1}, False),
    'all': (everything, None, False),
    'none': (everything, {'negate': True}, False),
    'truthy': (truthy, None, False),
    'nottruthy': (truthy, {'negate': True}, False),
    'notsaid': (said, {'negate': True}, False),
    'flatred': (red, {'flat': True}, False),
    'flatall': (everything, {'flat': True}, False),
    'flatnotblue': (blue, {'flat': True, 'negate': True}, False),
    'posgreen': (green, {'negate': False, 'flat': False}, False),
    'leaf': (leaf, None, True),
    'notleaf': (leaf, {'negate': True}, True),
    'redleaf': (red_leaf, None, True),
    'deep': (deep_red, None, True),
    'team': (team, None, True),
    'few': (few_kids, None, True),
    'tworeds': (two_reds, None, True),
    'oddreds': (odd_reds, None, True),
    'notodd': (odd_reds, {'negate': True}, True),
    'moody': (moody, None, True),
    'far': (far_green, None, True),
    'flatleaf': (leaf, {'flat': True}, True),
    'flatdeep': (deep_red, {'flat': True}, True),
}
OWN = [f for f, v in FILTERS.items() if not v[2]]
DESC = [f for f, v in FILTERS.items() if v[2]]
COLORS = ['red', 'blue', 'green']


def _levels(node, depth):
    """The nodes at most so far below."""
    tree, seen, todo = node.get_tree(), {}, [node]
    while todo and depth:
        depth -= 1
        now, todo = todo, []
        for n in now:
            for c in n.get_children():
                if c not in seen:
                    seen[c] = tree.get_node(c)
                    todo.append(seen[c])
    return list(seen.values())


def _mixed(seed):
    """Something about the nodes below, which shows some and hides others."""
    r = random.Random('mixed %d' % seed)
    color, main, other = (r.choice(COLORS) for _ in range(3))
    depth = r.choice([1, 2, 3, 99, 99, 99])
    what = r.choice(['any', 'any', 'any', 'odd', 'two', 'leaves', 'kids'])
    mode = {(a, b): r.choice('TTFbbn') for a in (0, 1) for b in (0, 1)}

    def func(node, parameters=None):
        if what == 'kids':
            below = node.get_n_children() > 1
        elif what == 'leaves':
            below = sum(not k.has_child() for k in _levels(node, depth)) % 2
        else:
            n = sum(color in k.colors for k in _levels(node, depth))
            below = {'any': n > 0, 'odd': n % 2, 'two': n > 1}[what]
        m = mode[main in node.colors, other in node.colors]
        return {'T': True, 'F': False, 'b': below, 'n': not below}[m]
    return func


MIXED = ['mix%02d' % k for k in range(32)]
FILTERS.update((f, (_mixed(k), {'flat': True} if k % 11 == 10 else None, True))
               for k, f in enumerate(MIXED))


def passes(func, params, node):
    value = func(node) if func is plain_blue else func(node, params)
    if params and params.get('negate'):
        value = not value
    return bool(value)
