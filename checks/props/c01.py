"""C01: automatic layout."""
from vlib import boxes

ID = "C01"
RULE = ("trees of 1-14 boxes (box/fbox/sbox/overlay, vertical and horizontal, sizes None, number, 'NN', 'NN%', fill, fill(N), texts as content, "
        "creation through items) on a slide; the area of every box is compared with a reference layout; non-trivial: at least 3 boxes, "
        "and a fill, a percentage or a nested stack is involved")
ASSUMPTIONS = ["text extents come from a simulated Inkscape with exact metrics", "cases where filling boxes get negative space are out of domain"]
CASES = {"quick": 8000, "thorough": 60000}


def strategy(tier):
    return boxes.trees(max_boxes=14 if tier == "quick" else 24, positions=0.04, pads=0.1, prepend=0.08, texts=0.25)


def check(spec, env):
    nodes, where = boxes.check_layout(spec, env)
    sizes = [boxes.parse_size(n.args.get(k))[0] for n in nodes[1:] for k in ("width", "height")]
    labels = []
    depth = 0
    for n in nodes:
        d = 0
        while n.parent is not None:
            n = n.parent
            d += 1
        depth = max(depth, d)
    labels.append("depth>=3" if depth >= 3 else "depth<3")
    for k in ("fill", "share"):
        if k in sizes:
            labels.append(k)
    weights = set()
    for n in nodes:
        main = "width" if n.horizontal else "height"
        mpos = "x" if n.horizontal else "y"
        f = [boxes.parse_size(c.args.get(main)) for c in n.children if c.args.get(mpos) is None]
        f = [v for k, v in f if k == "fill"]
        if len(f) >= 2:
            weights.add("several fills")
            if len(set(f)) > 1:
                weights.add("different weights")
        if len(n.children) >= 3:
            weights.add("3+ siblings")
    labels += sorted(weights)
    if any(n.horizontal and n.children for n in nodes):
        labels.append("horizontal parent")
    if len(nodes) >= 4 and ("fill" in sizes or "share" in sizes or depth >= 2):
        labels.append("nontrivial")
    return labels
