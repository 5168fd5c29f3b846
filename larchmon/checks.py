"""The checks: which parts decide which property."""
from . import mon_callbacks, mon_core, mon_filters, mon_gtk, mon_query, mon_tree
from . import mon_react, mon_widget, mon_work, part_tree, part_two, threads
from .filters import DESC, MIXED, OWN
from .gen import Profile
from .parts import HistoryPart


def varied(**base):
    """Mostly short histories on few nodes, some tiny and some large."""
    base.setdefault('chain', (25, 90))

    def make(rng, tier):
        kw = dict(base)
        chain = kw.pop('chain')
        x = rng.random()
        if x < .015:
            # many below, or above, the same few
            kw.update(nids=rng.choice([(14, 40), (14, 30), (45, 70)]), nops=(20, 50),
                      max_paths=300, shape=rng.choice(['star', 'star', 'fan']), prefill=1)
        elif x < .025:
            # long chains
            kw.update(nids=chain, nops=(15, 40), max_paths=300, shape='deep', prefill=1)
        elif x < .065:
            kw.update(nids=(10, 22), nops=(40, 110), max_paths=250)
        elif x < .165:
            kw.update(nids=(2, 4), nops=(5, 30))
        elif x < .18:
            # many that watch the same tree
            if kw.get('nviews', (1, 4))[1] > 1:
                kw.update(nviews=(5, 14))
            kw.update(nids=(2, 5), nops=(6, 25), ncounts=12)
        if 'filters' not in kw:
            kw['filters'] = rng.choice([
                OWN, OWN + DESC, OWN + DESC, DESC, rng.sample(MIXED, 4) + rng.sample(DESC, 1)])
        return Profile(**kw)
    return make


def huge(**base):
    def make(rng, tier):
        return Profile(**dict(base, nids=(15, 60), nops=(30, 200), max_paths=10 ** 30))
    return make


def small(**base):
    def make(rng, tier):
        return Profile(**dict(base, awkward=0, nids=(2, 7), nops=(4, 16), max_paths=60,
                              filters=rng.choice([OWN, OWN + DESC])))
    return make


class DisplayPart(HistoryPart):
    needs_display = True


class Check(object):
    def __init__(self, rule, parts, assumptions=()):
        self.rule = rule
        self.parts = parts
        self.assumptions = list(assumptions) + [
            'filter functions look at the node and its descendants only',
            'the process is the only user of the tree (except where threads are driven)']


HIST = ('Random histories of requests (adding, removing, moving, re-parenting, late and refused '
        'relationships, content changes, refreshes, view and filter changes), a function of '
        'VERIF_SEED; 8 processes with different hash seeds. A case is non-trivial if at least '
        '3 requests were carried out and the deciding monitor compared something; cases are '
        'told apart by their full text.')

EDIT = {'add': 14, 'del': 6, 'delr': 4, 'move': 9, 'addp': 12, 'rmp': 6, 'late': 5,
        'color': 2, 'bulk': 0, 'cycle': 4, 'junk': 3, 'view': 0, 'filter': 0, 'lazy': 0,
        'refresh_all': 0}
LATE = {'add': 20, 'readd': 6, 'late': 16, 'del': 6, 'delr': 4, 'move': 1, 'addp': 3, 'rmp': 1,
        'color': 1, 'bulk': 0, 'cycle': 0, 'junk': 1, 'view': 0, 'filter': 0, 'lazy': 0,
        'refresh_all': 0, 'refresh': 0}
REFUSE = {'cycle': 14, 'junk': 14, 'nofilter': 3, 'add': 12, 'color': 5, 'bulk': 1}

CHECKS = {
    'C01': Check(HIST, [
        (HistoryPart('graph', [mon_tree.WellFormed],
                     varied(weights=EDIT, nviews=(0, 1)), key=['edges']), 9600, 150000),
        (HistoryPart('graph-enable', [mon_tree.WellFormed],
                     varied(weights=dict(EDIT, enable=6), nviews=(0, 1)), key=['edges']),
         3200, 50000),
        (threads.SharedNodes('graph-threads', ('threads-malformed',)), 1600, 25000),
    ]),
    'C02': Check(HIST, [
        (HistoryPart('effect', [mon_tree.Effect],
                     varied(weights=EDIT, nviews=(0, 1)), key=['edits_compared']), 15000, 150000),
        (HistoryPart('effect-views', [mon_tree.Effect], varied(nviews=(1, 3)),
                     key=['edits_compared']), 2500, 25000),
    ]),
    'C03': Check(HIST, [
        (HistoryPart('refusal', [mon_tree.Refusal], varied(weights=REFUSE),
                     key=['refused_addp']), 12400, 60000),
        (part_tree.WithoutRefused('without-refused', [], varied(weights=REFUSE),
                                  key=['requests_left_out']), 6000, 30000),
    ]),
    'C04': Check(HIST, [
        (part_tree.Declared('declared', False), 15000, 100000),
        (part_tree.Declared('contradicting', True), 11200, 80000),
        (HistoryPart('late-effect', [mon_tree.Effect], varied(weights=LATE, late=.8, nviews=(0, 1)),
                     key=['edits_compared']), 11200, 80000),
    ]),
    'C05': Check(HIST, [
        (HistoryPart('content', [mon_core.ViewContent], varied(), key=['view_comparisons']),
         15000, 80000),
    ]),
    'C06': Check(HIST, [
        (HistoryPart('placement', [mon_core.Placement], varied(), key=['view_comparisons']),
         15000, 80000),
    ]),
    'C07': Check(HIST, [
        (HistoryPart('replica', [mon_core.EventReplica], varied(), key=['ev_added']),
         15000, 80000),
    ]),
    'C08': Check(HIST, [
        (HistoryPart('announced', [mon_core.Announced],
                     varied(weights={'refresh': 10, 'refresh_all': 4}),
                     key=['refreshed_rows']), 12400, 60000),
    ]),
    'C09': Check(HIST, [
        (HistoryPart('history', [mon_core.History], varied(nviews=(1, 3)),
                     key=['twin_views']), 12400, 60000),
    ]),
    'C10': Check(HIST, [
        (HistoryPart('queries', [mon_query.Queries], varied(nops=(6, 35)),
                     key=['queries']), 6000, 30000),
    ]),
    'C11': Check(HIST, [
        (HistoryPart('filters', [mon_filters.FilterSet],
                     varied(weights={'bank': 5, 'filter': 14, 'lazy': 6, 'share': 5, 'nofilter': 2}),
                     key=['content_checks']), 5000, 50000),
    ]),
    'C12': Check(HIST, [
        (HistoryPart('isolation', [mon_filters.Isolation],
                     varied(weights={'count': 2, 'cfilter': 3, 'view': 4}, cfilters=OWN,
                            nops=(8, 40)), key=['one_view_ops']), 10000, 50000),
        (part_two.TwoTrees('two-trees', varied(weights={'count': 1, 'cfilter': 2}, cfilters=OWN,
                                               nops=(4, 25), nviews=(0, 2))), 2500, 40000),
    ]),
    'C13': Check(HIST, [
        (HistoryPart('counters', [mon_filters.Counters],
                     varied(weights={'count': 5, 'cfilter': 6, 'note': 5, 'clazy': 4, 'cmodify': 4,
                                     'bank': 5},
                            nviews=(0, 1),
                            cfilters=OWN, notes=['ccb']), key=['counts_compared']),
         25000, 120000),
    ]),
    'C14': Check(HIST, [
        (threads.QueueTrace('queue'), 3000, 40000),
        (threads.TreeOrder('tree-order'), 6000, 80000),
    ]),
    'C15': Check(HIST, [
        (threads.QueueTrace('wakeup', fails=.3, only=('lost',)), 800, 20000),
        (threads.TreeThreads('tree', False), 1500, 40000),
        (threads.TreeThreads('tree-priorities', True), 800, 20000),
        (threads.SharedNodes('shared'), 1500, 40000),
    ]),
    'C16': Check(HIST, [
        (HistoryPart('actions', [mon_callbacks.Actions, mon_core.EventReplica],
                     varied(weights={'note': 22}, notes=['queue', 'queue', 'turn'],
                            awkward=.35), key=['runs_waiting', 'runs_idle']), 7500, 80000),
    ]),
    'C19': Check(HIST, [
        (HistoryPart('registrations', [mon_callbacks.Registrations],
                     varied(weights={'note': 30}, notes=['reg', 'reg', 'plan'], nviews=(1, 2)),
                     key=['stream_events', 'inside']), 15000, 80000),
    ]),
    'C17': Check(HIST, [
        (HistoryPart('model', [mon_gtk.GtkModel], varied(awkward=.3), key=['rows', 'kept_values']), 6000, 40000),
        (HistoryPart('model-life', [mon_gtk.GtkModelLife],
                     varied(weights={'note': 10}, notes=['attach', 'again', 'column'],
                            nviews=(1, 3)),
                     key=['rows', 'attached_late', 'connected_again', 'columns_exchanged']),
         4000, 25000),
    ]),
    'C18': Check(HIST, [
        (DisplayPart('sorted', [mon_widget.Sorted],
                     varied(weights={'note': 12, 'bulk': 0, 'touch': 12}, notes=['sort'], nviews=(1, 2)),
                     key=['sorted_pairs']), 4000, 20000),
    ]),
    'C22': Check(HIST, [
        (DisplayPart('drop', [mon_tree.Effect, mon_widget.Widget],
                     varied(weights={'drop': 30, 'bulk': 0, 'cycle': 0, 'junk': 0},
                            nviews=(1, 2), filters=OWN), key=['op_drop'],
                     world=mon_widget.WidgetWorld), 2000, 20000),
        (DisplayPart('folding', [mon_widget.Folding],
                     varied(weights={'note': 16}, notes=['collapse', 'collapse', 'expand', 'select', 'select'], nviews=(1, 2)),
                     key=['folded_rows', 'unfolded_rows', 'selected'],
                     world=mon_widget.WidgetWorld), 2000, 20000),
    ]),
    'C23': Check(HIST, [
        (DisplayPart('services', [mon_widget.Services],
                     varied(weights={'note': 45, 'touch': 6}, prefill=.8,
                            notes=['fold', 'xdrop', 'paint', 'look', 'look', 'cols'], nviews=(1, 2)),
                     key=['cells_drawn', 'external_drops'],
                     world=mon_widget.WidgetWorld), 2000, 20000),
    ]),
    'C20': Check(HIST, [
        (HistoryPart('enable', [mon_tree.Effect],
                     varied(weights=dict(EDIT, enable=14), nviews=(0, 1)),
                     key=['op_enable']), 25000, 120000),
    ]),
    'C24': Check(HIST, [
        (HistoryPart('work', [mon_work.Work],
                     varied(weights={'addp': 14, 'count': 1}, cfilters=OWN), key=['work']),
         1500, 40000),
        (mon_work.Hidden('work-hidden', [mon_work.Work],
                         huge(weights={'addp': 30, 'view': 0, 'filter': 0, 'lazy': 0},
                              start_views=False), key=['work']), 400, 10000),
        (mon_work.Churn('churn', [], small(weights={'view': 0, 'count': 1, 'cfilter': 2, 'share': 1},
                                           cfilters=OWN), key=['rounds', 'work']),
         300, 5000),
    ]),
    'C25': Check(HIST, [
        (HistoryPart('reactions', [mon_react.Reactions, mon_tree.WellFormed,
                                   mon_react.UnorderedEffect, mon_core.ViewContent,
                                   mon_core.Placement, mon_core.EventReplica,
                                   mon_filters.Counters],
                     varied(weights={'note': 16, 'count': 2, 'cfilter': 2, 'bulk': 0, 'late': 1},
                            cfilters=OWN, notes=['react'], nviews=(1, 3)),
                     key=['reactions']), 7500, 100000),
    ]),
    'C21': Check(HIST, [
        (HistoryPart('callbacks', [mon_core.InCallback], varied(chain=(12, 25)), key=['queries']),
         5000, 50000),
    ]),
}
