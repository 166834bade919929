"""C21 the web of beads links each bead to exactly its declared inputs"""
from bead_cli.web import sketch as web_sketch
from bead_cli.web.sketch import Sketch
from props.weblib import dummy, spec, stamp, same_ref, find, has_edge, is_phantom


def collection(env, inputs):
    """beads with arbitrary names, content ids and inputs; input counts are given"""
    beads = []
    for i in range(len(inputs)):
        specs = []
        for j in range(inputs[i]):
            s = spec(env.atom('in%d%d.name' % (i, j)), env.atom('in%d%d.cid' % (i, j)), stamp(env, 'in%d%d.t' % (i, j)), kind=env.atom('in%d%d.kind' % (i, j)))
            for other in specs:
                env.assume(env.neg(other.name == s.name))       # names of inputs are unique in a bead
            specs.append(s)
        b = dummy(env.atom('b%d.name' % i), env.atom('b%d.cid' % i), stamp(env, 'b%d.t' % i), specs, kind=env.atom('b%d.kind' % i))
        for other in beads:
            env.assume(env.neg(same_ref(env, other, b)))
        beads.append(b)
    return beads


def check_web(env, beads, web):
    for b in beads:
        found = find(env, web.beads, b)
        env.check(len(found) == 1, 'every bead is there once')
        f = found[0]
        env.check(not is_phantom(f), 'beads of the collection are not phantoms')
        env.check(env.all(f.kind == b.kind, f.freeze_time_str == b.freeze_time_str, list(f.inputs) == list(b.inputs)), 'beads have their own metadata')
        for i in b.inputs:
            links = [e for e in web.edges if env.all(same_ref(env, e.dest, b), same_ref(env, e.src, i))]
            env.check(len(links) == 1, 'one link for each input')
            env.check(links[0].label == i.name, 'links have the name of the input')
    total = 0
    for b in beads:
        total += len(b.inputs)
    env.check(len(web.edges) == total, 'there are no other links')
    for w in web.beads:
        if not find(env, beads, w):
            env.reach('phantom')
            env.check(is_phantom(w), 'other beads are phantoms')
            env.check(len(find(env, web.beads, w)) == 1, 'phantoms are there once')
            origin = [i for b in beads for i in b.inputs if env.all(same_ref(env, i, w), i.kind == w.kind, i.freeze_time_str == w.freeze_time_str)]
            env.check(len(origin) > 0, 'phantoms stand for an input')
            env.check(len(w.inputs) == 0, 'phantoms have no inputs')


def check_part(env, part, web, what):
    for b in part.beads:
        found = find(env, web.beads, b)
        env.check(len(found) == 1, what + ' adds no beads')
        env.check(is_phantom(found[0]) == is_phantom(b), what + ' does not change what is a phantom')
        for i in b.inputs:
            env.check(len([x for x in found[0].inputs if x == i]) == 1, what + ' adds no inputs')
        env.check(len(find(env, part.beads, b)) == 1, what + ' does not repeat beads')
    for e in part.edges:
        env.check(has_edge(env, web.edges, e), what + ' adds no links')
    for k in range(len(part.edges)):
        env.check(env.neg(has_edge(env, part.edges[:k], part.edges[k])), what + ' does not repeat links')


def links(env, inputs, dup=None):
    """dup: this bead is there a second time, from another box, at any place"""
    beads = collection(env, inputs)
    given = list(beads)
    if dup is not None:
        d = beads[dup]
        again = dummy(d.name, d.content_id, d.freeze_time_str, d.inputs, kind=d.kind, box='other')
        given.insert(env.num('place', 0, len(given)), again)
        env.reach('duplicate')
    web = Sketch.from_beads(given)
    env.reach('web')
    check_web(env, beads, web)


def parts(env, inputs):
    """keeping heads and removing deleted inputs only ever take away"""
    beads = collection(env, inputs)
    web = Sketch.from_beads(beads)
    env.reach('parts')
    check_part(env, web.drop_deleted_inputs(), web, 'removing deleted inputs')
    heads = web_sketch.heads_of(web)
    check_part(env, heads, web, 'keeping heads')
    final = heads.drop_deleted_inputs()
    check_part(env, final, web, 'removing deleted inputs from heads')


def deleted(env, inputs, gone):
    """a web without some of its beads: inputs that are not there any more"""
    beads = collection(env, inputs)
    web = Sketch.from_beads(beads)
    g = env.num('gone', 0, len(web.beads) - 1)
    left = [b for k, b in enumerate(web.beads) if k != g]
    edges = [e for e in web.edges if env.neg(env.any(same_ref(env, e.src, web.beads[g]), same_ref(env, e.dest, web.beads[g])))]
    rest = Sketch(tuple(left), tuple(edges))
    env.reach('deleted')
    final = rest.drop_deleted_inputs()
    check_part(env, final, rest, 'removing deleted inputs')
    env.check(len(final.beads) == len(left), 'no bead is lost')
    env.check(len(final.edges) == len(edges), 'no link is lost')


def through_boxes(env, same):
    """the web command: the beads of two boxes, one of them is in both"""
    import json
    import os
    import shutil
    from bead.box import Box
    from bead.workspace import Workspace
    from pathlib import Path
    r = env.root
    for b in ('a', 'b'):
        os.mkdir(r + '/' + b)
        env.cli('box', 'add', b, r + '/' + b, cwd=r)
    cid = env.atom('cid')
    nick = env.pick('nick', ['src', 'other'])
    src = Workspace(r + '/src')
    src.create(env.atom('kind'))
    p = Box('a', Path(r + '/a')).store(src, stamp(env, 't0'))
    if same:
        shutil.copy(p, r + '/b/' + p.name)
    real = Box('a', Path(r + '/a')).search().all()[0]
    dst = Workspace(r + '/dst')
    dst.create(env.atom('kind2'))
    if env.flag('known'):
        cid = real.content_id
    dst.add_input(nick, real.kind, cid, real.freeze_time_str)
    Box('b', Path(r + '/b')).store(dst, stamp(env, 't1'))
    x = env.cli('web', 'save', 'w', cwd=r)
    env.check(x.code == 0, 'web is saved')
    w = Sketch.from_file(r + '/w')
    env.reach('command')
    env.check(len([b for b in w.beads if b.name == 'src' and b.content_id == real.content_id and not is_phantom(b)]) == 1, 'the bead is there once')
    env.check(len(w.edges) == 1, 'one link for the input')
    env.check(env.all(w.edges[0].src.name == nick, w.edges[0].src.content_id == cid, w.edges[0].dest.name == 'dst', w.edges[0].label == nick), 'the link is that of the input')
    stands_for_known = env.all(nick == 'src', cid == real.content_id)
    env.check(env.iff(is_phantom(w.edges[0].src), env.neg(stands_for_known)), 'a phantom is there exactly when the input is not')
    env.check(len(w.beads) == (3 if is_phantom(w.edges[0].src) else 2), 'nothing else is there')
