"""C32 ordering beads for evaluation respects their input links"""
from bead_cli.web import graph
from bead_cli.web import sketch as web_sketch
from bead_cli.web.freshness import Freshness
from bead_cli.web.graph import Edge
from bead_cli.web.sketch import Sketch
from props.weblib import dummy, spec, stamp, instant, same_ref, find, is_phantom

T = '20200101T000000000000+0000'


def names_of(edges):
    names = []
    for s, d in edges:
        for n in (s, d):
            if not [m for m in names if m == n]:
                names.append(n)
    return names


def position(names, n):
    for k in range(len(names)):
        if names[k] == n:
            return k


def has_cycle(edges, names):
    """repeatedly remove nodes without inputs"""
    left = list(range(len(names)))
    pairs = [(position(names, s), position(names, d)) for s, d in edges]
    while left:
        free = [k for k in left if not [p for p in pairs if p[1] == k and p[0] in left]]
        if not free:
            return True
        left = [k for k in left if k not in free]
    return False


def any_graph(env, m, sink=False):
    """any m links: the nodes may coincide in any way"""
    pairs = []
    for i in range(m):
        pairs.append((env.atom('src%d' % i), env.atom('dest%d' % i)))
    nodes = {}

    def node(n):
        if n not in nodes:
            nodes[n] = dummy(n, 'cid', T)
        return nodes[n]
    edges = [Edge(node(s), node(d), 'label%d' % i) for i, (s, d) in enumerate(pairs)]
    names = names_of(pairs)
    cyclic = has_cycle(pairs, names)
    try:
        order = graph.toposort(edges)
    except Exception:
        order = None
    if cyclic:
        env.reach('cycle')
        env.check(order is None, 'a cycle is an error')
        return
    env.reach('order')
    env.check(order is not None, 'there is an order')
    env.check(len(order) == len(names), 'every bead is listed once')
    listed = [b.name for b in order]
    for s, d in pairs:
        ps, pd = position(listed, s), position(listed, d)
        env.check(ps is not None and pd is not None, 'every bead is listed')
        env.check(ps < pd, 'beads come after their inputs')


def web_order(env, inputs):
    """the beads of a web with the final sink, as used for colouring; inputs are any beads"""
    n = len(inputs)
    names = [env.atom('name%d' % i) for i in range(n)]
    beads = []
    targets = []
    for i in range(n):
        specs = []
        for j in range(inputs[i]):
            k = env.num('target%d%d' % (i, j), 0, n)
            targets.append((k, i))
            s = spec(names[k], 'c%d' % k, T) if k < n else spec(env.atom('missing%d%d' % (i, j)), 'm%d%d' % (i, j), T)
            for o in specs:
                env.assume(env.neg(o.name == s.name))
            specs.append(s)
        beads.append(dummy(names[i], 'c%d' % i, T, specs))
    web = Sketch.from_beads(beads)
    full, sink = web_sketch.add_final_sink_to(web)
    cyclic = has_cycle(targets, list(range(n + 1)))
    try:
        order = graph.toposort(full.edges)
    except Exception:
        order = None
    if cyclic:
        env.reach('cycle')
        env.check(order is None, 'a cycle is an error')
        return
    env.reach('order')
    env.check(order is not None, 'there is an order')
    env.check(len(order) == (len(web.beads) + 1 if web.beads else 0), 'every bead is listed once')
    for e in web.edges:
        ps = [k for k in range(len(order)) if same_ref(env, order[k], e.src)]
        pd = [k for k in range(len(order)) if same_ref(env, order[k], e.dest)]
        env.check(len(ps) == 1 and len(pd) == 1, 'every bead is listed once')
        env.check(ps[0] < pd[0], 'beads come after their inputs')


def coloured_cycle(env, n):
    """a web whose heads form a cycle is not coloured"""
    names = ['n%d' % i for i in range(n)]
    beads = [dummy(names[i], 'c%d' % i, T, [spec(names[(i + 1) % n], 'c%d' % ((i + 1) % n), T)]) for i in range(n)]
    k = env.num('rotated', 0, n - 1)
    beads = beads[k:] + beads[:k]
    # one of the links may lead to a missing version instead: then there is no cycle
    j = env.num('broken', 0, n)
    if j < n:
        old = beads[j]
        beads[j] = dummy(old.name, old.content_id, T, [spec('other', 'cx', T)])
    web = Sketch.from_beads(beads)
    try:
        web.color_beads()
        ok = True
    except Exception:
        ok = False
    env.reach('coloured')
    env.check(ok == (j < n), 'exactly webs without cycle are coloured')


def heads(env, n, phantoms, zones=False):
    """the head of any set of versions given in any order"""
    beads = []
    for i in range(n):
        p = phantoms and env.flag('phantom%d' % i)
        b = dummy(env.atom('name%d' % i), 'c%d' % i, stamp(env, 't%d' % i, zones=zones), freshness=Freshness.PHANTOM if p else None)
        for o in beads:
            env.assume(env.implies(o.name == b.name, env.neg(instant(o.freeze_time_str) == instant(b.freeze_time_str))))
        beads.append(b)
    web = Sketch.from_beads(beads)
    env.reach('heads')
    for b in beads:
        cluster = web.cluster_by_name[b.name]
        head = cluster.head
        env.check(len(find(env, beads, head)) == 1, 'the head is one of the beads')
        env.check(head.name == b.name, 'the head has the name of the cluster')
        mates = [x for x in beads if x.name == b.name]
        real = [x for x in mates if not is_phantom(x)]
        env.check(is_phantom(head) == (not real), 'the head is a phantom only if all versions are')
        for x in (real or []):
            env.check(instant(x.freeze_time_str) <= instant(head.freeze_time_str), 'no real version is newer than the head')
        env.check(len(cluster) == len(mates), 'clusters have all their versions')
        versions = cluster.beads()
        env.check(len(versions) == len(mates), 'clusters have all their versions')
        for k in range(len(versions) - 1):
            env.check(instant(versions[k].freeze_time_str) > instant(versions[k + 1].freeze_time_str), 'versions are listed newest first')
