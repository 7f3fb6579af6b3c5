"""Structure and operations of BTrees."""
from vlib.case import require


def check_tree(tree, exact_counts=True):
    """The invariants of a B-tree with minimum degree t. -> facts"""
    root = tree.root
    facts = dict(nodes=0, items=0, depth=0)
    depths = set()
    def visit(node, depth, low, high):
        facts['nodes'] += 1
        items = node.items
        t = node.minimum_degree
        require(node.__class__ is root.__class__, 'nodes of different classes')
        require(len(items) <= 2 * t - 1, 'a node has %d items, t is %d',
                len(items), t)
        if node is not root:
            require(len(items) >= t - 1, 'a node has %d items, t is %d',
                    len(items), t)
        count = len(items)
        previous = low
        for pair in items:
            require(isinstance(pair, tuple) and len(pair) == 2, 'item %r', pair)
            require(previous is None or previous[0] < pair[0],
                    'keys are not in order: %r %r', previous, pair)
            previous = pair
        if previous is not None and high is not None and items:
            require(previous[0] < high[0], 'keys are not in order: %r %r',
                    previous, high)
        if node.nodes is None:
            depths.add(depth)
        else:
            require(len(node.nodes) == len(items) + 1,
                    '%d items and %d nodes', len(items), len(node.nodes))
            require(items, 'an inner node without items')
            for n, child in enumerate(node.nodes):
                count += visit(child, depth + 1,
                               items[n - 1] if n > 0 else low,
                               items[n] if n < len(items) else high)
        stored = node._count
        if type(stored) is int:
            require(stored == count, 'a node counts %r items, it has %r',
                    stored, count)
        else:
            require(not exact_counts, 'a node has no count')
        require(node.get_count() == count, 'get_count()')
        return count
    facts['items'] = visit(root, 0, None, None)
    require(len(depths) == 1, 'leaves at different depths %r', depths)
    facts['depth'] = depths.pop() + 1
    require(tree.get_depth() == facts['depth'], 'get_depth()')
    require(tree.get_node_count() == facts['nodes'], 'get_node_count()')
    require(len(tree) == facts['items'], 'len() is %r with %r items',
            len(tree), facts['items'])
    require(bool(tree) == bool(facts['items']), 'bool() with %r items',
            facts['items'])
    return facts


def forget_counts(tree):
    """As stored before there were counts."""
    def visit(node):
        if '_count' in node.__dict__:
            del node._count
        for child in node.nodes or []:
            visit(child)
    visit(tree.root)
