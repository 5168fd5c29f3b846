"""Writes properties.jsonl (kept as a script to keep the text readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe, 'hook_needed': hook}})


T, N, F, V, B, C, Q = ('liblarch/tree.py', 'liblarch/treenode.py',
                       'liblarch/filteredtree.py', 'liblarch/viewtree.py',
                       'liblarch/filters_bank.py', 'liblarch/viewcount.py',
                       'liblarch/processqueue.py')
I, G, M = 'liblarch/__init__.py', 'liblarch_gtk/__init__.py', 'liblarch_gtk/treemodel.py'
NODES = ('nodes', 'all nodes by id', T)
PEND = ('pending_relationships', 'declared relationships whose other end is missing', T)
CACHE = ('nodes of a view', 'displayed nodes with their displayed parents and children', F)

prop('C01', 'The nodes always form a well-formed acyclic graph',
     'After every request on a tree, accepted or refused, following the parents of a node never leads back to it, every '
     'parent-child relationship is reported identically at both ends and once only, and no node refers to a node that is '
     'not in the tree. Every node is reachable from the top level, and the top level consists of exactly the nodes without '
     'a parent, each of them once.',
     ['histories', 'inputs'], 'all sequences of adding, removing (also recursively), moving, adding and removing parents or '
     'children, late relationships and refused requests, over all DAG shapes',
     'The tests walk a few dozen fixed shapes and never remove or move nodes with three or more parents, nor mix refused '
     'requests with late relationships.',
     [T, N, I], [NODES, ('root.children', 'top level', T), PEND],
     [('_create_relationship / _destroy_relationship', T), ('_is_circular_relation', T), ('_remove_node', T)],
     ['Tree.get_node(i).get_parents/get_children/has_parent/has_child', 'get_main_view() queries after every request'])
prop('C02', 'Every edit has exactly its documented effect and no other',
     'Adding puts a node under the given parent or at the top level; removing takes away exactly the node (its children '
     'stay, and go to the top level if they have no other parent) or, recursively, the node and all its descendants; moving '
     'leaves the new parent as the only one; adding or removing a parent or child changes that relationship alone. All other '
     'nodes, relationships and node contents are untouched, remaining siblings keep their relative order and a new '
     'child comes after them.',
     ['histories', 'inputs'], 'all histories of edits over all DAG shapes, through the tree and through the node interface',
     'Each test looks at the edge it edits on a small tree; frame conditions over arbitrary graphs (multi-parent removal, '
     'recursive removal through shared descendants) are not examined.',
     [T, N, I], [NODES], [('_add_node/_remove_node/_new_relationship/_break_relationship', T), ('set_parent', N),
                          ('move_node/add_parent', I)],
     ['the whole main tree compared with a reference model before and after every edit'])
prop('C03', 'Requests that cannot be honoured are refused and change nothing',
     'A request that would make a node its own ancestor, or gives parameters to a filter that does not exist, raises an '
     'exception; requests naming the node itself as its parent, '
     'adding an id that is already present, or removing, moving or re-parenting an unknown node have no effect. In all these '
     'cases the tree, every view and what the views\' observers know stay exactly as they were, and the tree keeps working '
     'normally afterwards.',
     ['histories', 'inputs'], 'every state and every unacceptable request in it, at any position of a history',
     'The tests try a handful of cycles of length two or three and check that something is raised, not that everything '
     'else is unchanged.',
     [T, N, I, F], [NODES, PEND], [('_is_circular_relation', T), ('_add_node', T), ('set_parent', N)],
     ['snapshot of main tree, views and replicas around the request'])
prop('C04', 'Relationships declared before their nodes exist are completed later',
     'A parent or child may be named before it is in the tree; as soon as both nodes are present, the relationship exists, '
     'whatever the order in which nodes are added and declarations made. A late relationship that would close a cycle is '
     'dropped alone, without disturbing the addition or the other relationships, and removing a node also forgets the '
     'late relationships declared with it.',
     ['histories', 'inputs'], 'all graphs, all orders of adding their nodes, and all ways of declaring each edge early',
     'The tests add one late parent or child; permutations of orders and mixtures of declarations are not covered.',
     [T, N], [PEND], [('_add_node (build pending relationships)', T), ('add_parent/add_child/set_parent', N)],
     ['the final graph compared over many orders of the same construction'])
prop('C05', 'A view shows exactly the nodes that pass all its filters',
     'At any time after a request has returned, a view displays a node if and only if the node is in the tree and satisfies '
     'every filter applied to the view, provided changes of content were announced. This holds for filters '
     'that look at the node and for filters that look at its descendants, and no request makes a view raise.',
     ['histories', 'inputs', 'configurations'], 'all trees, all combinations of such filters, and all histories of edits, content '
     'changes (single, or several before a refresh), and filter changes',
     'The tests check chosen filters on one 20-node tree; staleness appears in shapes with shared descendants, several nodes '
     'changing together, or filters depending on children.',
     [F, B, V], [CACHE], [('__update_node', F), ('__is_displayed', F), ('refilter', F)],
     ['get_all_nodes/is_displayed of every view against the filters evaluated directly'])
prop('C06', 'A view places every node under exactly its displayed parents',
     'In a view, the parents of a displayed node are exactly those of its parents that are displayed, and it is at the top level '
     'exactly if there are none; children lists agree with this, without duplicates. In a view with a flat filter every displayed '
     'node is at the top level and has no children.',
     ['histories', 'inputs', 'configurations'], 'all trees, filters and histories; nodes with several parents of which any '
     'subset is hidden; flat and non-flat filters combined and exchanged',
     'The tests cover single hidden parents; subsets of several parents and switching between flat and nested are sampled once.',
     [F, V], [CACHE], [('__node_parents/__node_children', F), ('__update_node', F)],
     ['node_parents/node_all_children of every view against the specification'])
prop('C07', 'Replaying a view\'s notifications reproduces the view exactly',
     'An observer that starts from a view\'s content and applies each row-added and row-deleted notification has, after every '
     'request, exactly the rows of the view, one per path, with siblings in the same order. A row is announced only below an '
     'announced parent and never twice; it is withdrawn or reported modified only while announced, and withdrawn only after all '
     'rows below it.',
     ['histories', 'inputs', 'configurations'], 'all histories of edits, content changes and filter changes on all DAGs and views',
     'The tests replay some histories into a GTK model without asserting the protocol; ordering of notifications in diamonds '
     'and filter rebuilds is not examined.',
     [F, V], [CACHE], [('send_add_tree/send_remove_tree', F), ('callback', F), ('__emit', V)],
     ['node-added-inview, node-deleted-inview, node-modified-inview, node-children-reordered'])
prop('C08', 'Announced changes reach every place where the node is shown',
     'When a refresh of a node is requested, each row of that node, in every view that shows it before and after, is reported '
     'modified (or withdrawn and announced again). A refresh of nodes of which nothing changed adds and '
     'withdraws no row. Observers of the unfiltered main view are told exactly once about each node added or deleted, after the '
     'fact, and about every refreshed node and both ends of every changed relationship between nodes that stay.',
     ['histories', 'inputs'], 'all trees, views and refresh requests (single, with any priority, and all nodes)',
     'The tests check one modified callback on one node; several rows per node and several views are not counted.',
     [F, T, V], [CACHE], [('_modify_node/refresh_all', T), ('__update_node', F), ('__emit', V)],
     ['notifications between request and return'])
prop('C09', 'A view depends on the present state only; late observers catch up',
     'A view created now with the same filters has the same content and structure as one that lived through the whole history, '
     'and so does a fresh tree built with the same nodes and relationships. Asking a view for its current state announces '
     'exactly its present rows, parents first and in order, and changes nothing.',
     ['histories', 'configurations'], 'all histories, all points at which an observer or a new view joins',
     'The tests attach observers at the beginning or once at the end of a fixed history.',
     [F, V, I], [CACHE], [('refilter', F), ('get_current_state', F)],
     ['pairs of views; get_current_state() at random points'])
prop('C10', 'All queries of a tree, node or view tell the same story',
     'For the main view and for every filtered view, the answers about nodes, children (all, nth, counts, recursive counts), '
     'parents, next sibling and paths are mutually consistent and consistent with the structure shown: a node\'s paths are '
     'exactly the ways from the top level to it, a path leads back to its node and an invalid path to none. Queries never change '
     'anything, and answers are not affected by what the caller does to returned lists.',
     ['inputs', 'histories'], 'all reachable states and all arguments, including unknown and hidden nodes and the top level',
     'The tests ask single questions on a fixed tree; consistency between different questions over arbitrary DAGs is not stated.',
     [V, F, T, N], [CACHE, NODES], [('query methods', V), ('get_paths_for_node', F), ('get_paths_for_node/next_node', T)],
     ['every query method on every node of every view at quiescent points'])
prop('C11', 'Applying, removing and resetting filters acts as a set of conditions',
     'The content of a view depends only on the set of filters applied at present, with the parameters last given, not on the order or the '
     'manner in which they were applied, replaced or removed; a negated filter shows the complement. The list of applied filters is exact, '
     'counting with additional filters gives what applying them would show, and the filter bank adds a name once, lists it, '
     'removes it, and a view with a filter that is no longer in the bank shows nothing.',
     ['histories', 'configurations'], 'all sequences of filter operations, with and without immediate refresh, interleaved with edits',
     'The tests apply one or two filters in one order and compare sizes.',
     [F, B, V], [('applied_filters', 'names of the filters in force', F), ('dic', 'parameters of a filter', B)],
     [('apply_filter/unapply_filter/reset_filters/refilter', F), ('Filter.is_displayed', B)],
     ['view content after permuted filter histories', 'get_n_nodes/get_nodes(withfilters)', 'list_applied_filters', 'list_filters'])
prop('C12', 'Views are independent of each other and found again by name',
     'Creating, filtering, observing or querying one view never changes the content, filters or notifications of another view nor '
     'the tree itself (the parameters last given to a filter of the bank are shared by all views that use it). Asking for a view or counter by a name that exists returns the same object unchanged, any other request gives a new, '
     'independent one; filters cannot be applied to the main view. Trees are independent of each other as well, even if one is '
     'changed from inside a notification of the other.',
     ['histories', 'configurations'], 'all sets of views, named or anonymous, and all interleavings of their operations',
     'The tests hold one or two views and never assert that the other one was left alone.',
     [I, V, F], [('__views', 'named views', I)], [('get_viewtree/get_viewcount', I), ('ViewTree', V)],
     ['digest and notifications of all other views around each operation on one view'])
prop('C13', 'A counter equals the number of nodes passing its filters',
     'After every request a view counter reports exactly how many nodes of the tree satisfy all its filters (which depend on '
     'the nodes themselves; a filter is accepted if the bank knows it, and lets nothing pass once it is removed from the bank), and '
     'whenever that number has changed its registered callbacks have been called and already see the new '
     'number. Each callback is registered at most once and is not called after it was unregistered.',
     ['histories', 'inputs'], 'all histories of edits, content changes and filter changes, all filter sets, counters created at any time',
     'The tests compare a counter once after applying a filter.',
     [C, I, B], [('nodes', 'nodes counted', C)], [('__modify/__add/__delete', C)],
     ['get_n_nodes() and callbacks of every counter after every request'])
prop('C14', 'Requests of other threads are carried out once each, in order',
     'Every request issued by another thread is carried out exactly once, later, in the thread that owns the tree, none while another is '
     'being carried out; identical requests still waiting at the same priority count as one. '
     'Requests of high priority go before normal and normal before low ones, and within a priority they keep the order in '
     'which they were issued. Additions and refreshes for which no priority is given are of low, all other changes of normal '
     'priority. Requests issued by the owning thread take effect before the call returns.',
     ['schedules', 'histories'], 'all interleavings of any number of producing threads with the main loop',
     'The test suite never issues a request from a second thread.',
     [Q, T], [('_vip_queue/_queue/_low_queue', 'waiting requests', Q), ('_handler', 'installed idle source', Q)],
     [('push/process/process_queue with _lock', Q)],
     ['issue and execution events with thread and time, at the boundary of the queue'])
prop('C15', 'No request of a thread is lost, and none can block the others',
     'Once threads stop issuing requests and the main loop has run until it is idle, every request has been carried out and '
     'the tree and all its views are what the same requests, in the order in which they were carried out, give in a single thread. '
     'A request that is refused or fails does not prevent any other request, earlier or later, from being carried out.',
     ['schedules', 'fault_sequences'], 'all interleavings of producers and main loop, all points at which the queue runs empty, all '
     'positions of failing requests',
     'No test uses threads; lost wake-ups and stalled handlers need particular interleavings.',
     [Q, T, N], [('_handler', 'installed idle source', Q)], [('process_queue/process', Q), ('push', Q)],
     ['state after quiescence against the sequential result'])
prop('C16', 'An action waiting for a node runs once, when the node appears',
     'An action queued on a view for a node runs exactly once with its parameter: on the next turns of the main loop if the node is '
     'displayed at that time, otherwise as soon as the node is next displayed in that view and not before. Actions waiting '
     'for the same node run in the order in which they were queued, and neither actions nor node ids influence ordinary notifications.',
     ['histories', 'inputs'], 'all histories of queueing, showing, hiding and removing nodes, with any node ids and action results',
     'One test queues one action for one node.',
     [F, V], [('callbacks waiting for a node', 'actions not yet run', F)], [('set_callback/callback', F), ('queue_action', V)],
     ['runs of actions against the display history of the node'])
prop('C17', 'The GTK model holds exactly the rows and values of its view',
     'After every request the GTK tree model connected to a view has exactly one row per path of the view, in the view\'s order '
     'when unsorted, and each column of each row has the value its function gives for the node now (a function giving none keeps the old one). '
     'Looking up a path gives that very row, connecting late or repeatedly gives the same result, and no GLib or GTK warning is emitted.',
     ['histories', 'configurations'], 'all histories of edits, content and filter changes; models connected at any point; rows recreated '
     'in reused memory',
     'The tests compare row counts of some histories; iterators of removed rows that become valid again need particular histories.',
     [M], [('cache_paths/cache_position', 'where a path was last seen', M)], [('add_task/remove_task/update_task', M), ('my_get_iter', M)],
     ['all rows and columns of the model after every request', 'GLib log'])
prop('C18', 'A sorted tree widget keeps its rows in order at all times',
     'When a column is sorted, the rows below every parent are ordered by the comparison of that column after every '
     'request, in the chosen direction, including after announced content changes, moves and changes of the sorted column; '
     'sorting never loses, duplicates or mixes up rows.',
     ['histories', 'configurations'], 'all histories, comparison functions, directions and changes of sort column',
     'The tests do not sort.',
     [G, M], [('sort_col/sort_order', 'chosen sorting', G)], [('set_sort_column/_sort_func', G), ('my_get_iter', M)],
     ['row order of the widget\'s model'])
prop('C19', 'Each registered callback gets every event once; deregistered ones none',
     'Every callback registered for an event of a view is called once for each such event until it is deregistered, however many others '
     'are registered, deregistered or registered again, even from within a callback; '
     'the key returned at registration always designates that callback alone. Deregistering an unknown key has no effect.',
     ['histories'], 'all sequences of registering and deregistering, before, between and during notifications',
     'The tests register one callback per event and never deregister in between.',
     [V, T], [('callbacks by event and key', 'registered callbacks', V)], [('register_cllbck/deregister_cllbck/__emit', V),
                                                                        ('register_callback/_callback', T)],
     ['calls received by each callback'])
prop('C20', 'Nodes that do not take parents or children never get any',
     'A node whose parents are disabled never has a parent and a node whose children are disabled never has a child, however a '
     'relationship is requested; such a request leaves the other nodes and the rest of the request as they should be. Disabling '
     'ends exactly the relationships of that kind at once, with the former children or the node itself '
     'going to the top level when no parent is left, and enabling again restores normal behaviour.',
     ['histories', 'inputs'], 'all histories with disabling and enabling at any point and all ways of requesting relationships',
     'One test disables the children of one node.',
     [N, T], [('parents_enabled/children_enabled', 'flags of a node', N)], [('set_parents_enabled/set_children_enabled/add_parent/add_child', N),
                                                                             ('_add_node', T)],
     ['graph after every request against the model'])
prop('C21', 'Inside a notification the view can be queried and is coherent',
     'While an observer is being notified, queries on the view about any node it lists do not raise. When a row is announced or reported '
     'modified, its node is displayed and the reported path is one of the node\'s paths at that moment; '
     'no notification refers to a node that was never in the tree.',
     ['histories', 'inputs'], 'every notification of every history',
     'The test callbacks do not query the view.',
     [F, V], [CACHE], [('__update_node order of updates and callbacks', F), ('get_paths_for_node', F)],
     ['queries made from inside callbacks'])
prop('C22', 'The tree widget\'s drag-and-drop, selection and folding act on the right nodes',
     'Dropping a dragged row onto, before or after a row, or outside, moves exactly the dragged node under that row\'s node, '
     'under its parent, or to the top level; an impossible drop changes nothing. Several rows dragged at once all move in the same way. The selected nodes reported are those of '
     'the selected rows. A node asked to be collapsed, now or before it appears, has all its rows folded and stays folded while its children '
     'come and go, until it is asked to be expanded; all other rows unfold by themselves.',
     ['histories', 'inputs'], 'all trees and views with repeated rows, all drop targets and positions, all selections, all orders of '
     'collapsing and changes',
     'The tests do not exercise the widget beyond constructing it.',
     [G, M], [('collapsed_paths', 'rows to keep folded', G)], [('on_drag_data_get/on_drag_data_received', G), ('get_selected_nodes', G),
                                                              ('collapse_node/on_child_toggled', G)],
     ['tree after the drop handlers; selection; folding state of each row'])
prop('C23', 'The tree widget shows and reports exactly what it was told to',
     'The widget has the described columns in the given order, those without an order last; each cell shows the value its column '
     'function gives for its node, also after announced changes; rows are painted with the colour the background function gives '
     'for them, and rows are drawn as separators exactly where the separator function says so. Folding or unfolding '
     'a row is announced once, with the path of that row\'s node. Rows dropped from another widget are handed once each, in order, to '
     'the function registered for it, with the node they were dropped on; drops at the top level are '
     'not, and the tree stays as it was.',
     ['histories', 'configurations', 'inputs'], 'all trees, views, column descriptions, colour and separator functions, rows '
     'and drop targets',
     'The tests construct one widget and look at none of its rows.',
     [G, M], [('columns/sort_col/bg_color_func', 'description of the columns', G)],
     [('set_column_description/_init_...', G), ('_celldata_func/_separator_func', G),
      ('__emit/on_drag_data_received', G)],
     ['columns, cell renderers, pixels of an off-screen window, signals, calls of the registered functions'])
prop('C24', 'Requests end after bounded work, however long the tree has lived',
     'Every request and query on a tree and its views comes to an end, after work polynomial (at most quadratic in '
     'practice) in the number of nodes, relationships and displayed rows; in particular it never depends on the number of ways '
     'through nodes that are hidden or shown flat. It does not depend on how many requests came before either: the same requests made '
     'again on a tree emptied in between take the same work, and what an emptied tree keeps does not grow.',
     ['histories', 'inputs'], 'all graphs, in particular those with exponentially many paths, all views, and histories of any length',
     'The tests use small trees, on which exponential work is not noticed, and start from a new tree each time.',
     [T, F], [NODES, CACHE], [('_is_circular_relation', T), ('__update_node/refilter', F)],
     ['function entries and loop iterations of the library during each request; objects reachable from an emptied tree'])

prop('C25', 'Observers of the tree can answer notifications with requests',
     'An observer of the main view, or of a counter, may make requests on the tree from inside a notification: a refresh or an '
     'announced change of content at any time, any request when it is told that a node was added or (alone) removed, or while a '
     'counter is being filtered. Each takes effect before it returns, and once the outer request has returned, the tree, its views, '
     'their observers and counters are as if the requests had been made one after another; every addition and removal is announced '
     'exactly once, and refused requests change nothing.',
     ['histories', 'inputs'], 'all histories in which observers answer any notification of any request with any such request, '
     'also in turn',
     'The test callbacks only record what they are told.',
     [T, F, C, V], [('callbacks by event', 'observers of the tree, views and counters among them', T), CACHE],
     [('_callback over a copy, at the end of _add_node/_remove_node', T), ('__external_modify', F), ('__modify/__delete', C)],
     ['tree, views, replicas and counters after every request; effect of each request inside a notification on its return'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
