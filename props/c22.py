"""C22 web filtering keeps exactly what lies between sources and sinks"""
from bead_cli.web import sketch as web_sketch
from bead_cli.web.sketch import Sketch
from props.weblib import dummy, spec, same_ref, find, has_edge

T = '20200101T000000%06d+0000'


def some_web(env, inputs, phantoms=False):
    """beads in clusters of any arrangement; each input is any earlier bead or (phantoms) a missing one of any cluster"""
    beads = []
    for i in range(len(inputs)):
        specs = []
        for j in range(inputs[i]):
            k = env.num('target%d%d' % (i, j), 0, i if phantoms else i - 1)
            if k < i:
                s = spec(beads[k].name, beads[k].content_id, beads[k].freeze_time_str)
            else:
                s = spec(env.atom('missing%d%d' % (i, j)), 'm%d%d' % (i, j), T % (50 + 10 * i + j))
            for o in specs:
                env.assume(env.neg(o.name == s.name))
            specs.append(s)
        beads.append(dummy(env.atom('name%d' % i), 'c%d' % i, T % i, specs))
    return Sketch.from_beads(beads)


def among(name, names):
    for n in names:
        if n == name:
            return True
    return False


def reach(edges, names, forward):
    """names of clusters reachable (or leading to) from one of the names"""
    kept = list(names)
    changed = True
    while changed:
        changed = False
        for e in edges:
            a, b = (e.src.name, e.dest.name) if forward else (e.dest.name, e.src.name)
            if among(a, kept) and not among(b, kept):
                kept.append(b)
                changed = True
    return kept


def check_filtered(env, web, names, result):
    """result has exactly the clusters of these names"""
    for b in web.beads:
        keep = among(b.name, names)
        found = find(env, result.beads, b)
        env.check(len(found) == (1 if keep else 0), 'beads of kept clusters and only they remain')
        if keep:
            f = found[0]
            env.check(env.all(f.kind == b.kind, f.freeze_time_str == b.freeze_time_str, f.freshness == b.freshness, f.box_name == b.box_name), 'kept beads are unchanged')
    total = 0
    for b in web.beads:
        if among(b.name, names):
            total += 1
    env.check(len(result.beads) == total, 'no other bead is there')
    links = 0
    for e in web.edges:
        if among(e.src.name, names) and among(e.dest.name, names):
            links += 1
            env.check(has_edge(env, result.edges, e), 'links between kept clusters remain')
    env.check(len(result.edges) == links, 'no other link is there')


def wanted(env, label, n):
    """n names, each may or may not be that of a cluster"""
    return [env.atom('%s%d' % (label, i)) for i in range(n)]


def sources(env, inputs, n=1, phantoms=False):
    web = some_web(env, inputs, phantoms)
    names = wanted(env, 'source', n)
    result = web_sketch.set_sources(web, names)
    env.reach('sources')
    check_filtered(env, web, reach(web.edges, names, True), result)


def sinks(env, inputs, n=1, phantoms=False):
    web = some_web(env, inputs, phantoms)
    names = wanted(env, 'sink', n)
    result = web_sketch.set_sinks(web, names)
    env.reach('sinks')
    check_filtered(env, web, reach(web.edges, names, False), result)


def command(env, inputs, n_sources, n_sinks, phantoms=False):
    """the filter of the web command"""
    web = some_web(env, inputs, phantoms)
    r = env.root
    web.to_file(r + '/web')
    srcs = wanted(env, 'source', n_sources)
    snks = wanted(env, 'sink', n_sinks)
    x = env.cli('web', 'load', 'web', '/', *(srcs + ['..'] + snks + ['/', 'save', 'filtered']), cwd=r)
    env.check(x.code == 0, 'the command works')
    result = Sketch.from_file(r + '/filtered')
    env.reach('command')
    names = []
    for b in web.beads:
        if not among(b.name, names):
            names.append(b.name)
    edges = list(web.edges)
    if n_sources:
        ok = reach(edges, srcs, True)
        names = [x for x in names if among(x, ok)]
        edges = [e for e in edges if among(e.src.name, names) and among(e.dest.name, names)]
    if n_sinks:
        ok = reach(edges, snks, False)
        names = [x for x in names if among(x, ok)]
    check_filtered(env, web, names, result)
