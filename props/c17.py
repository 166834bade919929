"""C17 input update selects the right version"""
import os
from pathlib import Path
from bead.workspace import Workspace
from props.boxlib import new_box, save, index
from props.cmdlib import known_box, snapshot, files_of
from props.weblib import stamp, instant

PLACES = ('one', 'two', 'both')


def versions(env, n, kinds, zones, indexed, places):
    """n beads with any freeze times; kinds: which kind each has; places: the boxes each is in"""
    boxes = {'one': known_box(env, 'one'), 'two': known_box(env, 'two')}
    out = []
    for i in range(n):
        name = 'v%d' % i
        t = stamp(env, 't%d' % i, zones=zones and i == 0)
        s = save(env, boxes[places[i] if places[i] != 'both' else 'one'], name, t, kinds[i], data=name)
        if places[i] == 'both':
            import shutil
            shutil.copy(s.path, str(boxes['two'].directory) + '/' + s.path.name)
        s.at = instant(t)
        out.append(s)
    for b in indexed:
        index(boxes[b])
    return out


def different(env, out, kind=None):
    """no two versions of a kind have the same freeze time: there is one newest"""
    for i in range(len(out)):
        for j in range(i):
            if out[i].kind == out[j].kind:
                env.assume(env.neg(out[i].at == out[j].at))


def outcome(env, ws, nick, s, unchanged, before):
    """what the input refers to now is this version"""
    i = Workspace(ws).get_input(nick)
    return i.content_id == s.content_id


def check_selected(env, ws, nick, candidates, better, before, code=None):
    """the input refers to the best one of the candidates [(condition, version)], or stays as it was"""
    i = Workspace(ws).get_input(nick)
    for k in range(len(candidates)):
        cond, s = candidates[k]
        best = env.all(cond, *[env.implies(c, better(s, o)) for c, o in candidates if o is not s])
        right = env.all(i.content_id == s.content_id, i.kind == s.kind, i.freeze_time_str == s.freeze_time)
        env.check(env.implies(best, right), 'the right version is selected')
        if code is not None:
            env.check(env.implies(best, code == 0), 'selecting works')
    none = env.all(True, *[env.neg(c) for c, s in candidates])
    same = env.all(i.content_id == before[1], i.kind == before[0], i.freeze_time_str == before[2])
    env.check(env.implies(none, same), 'without candidates the input stays as it was')
    if code is not None:
        env.check(env.implies(none, code != 0), 'without candidates it is an error')
    loaded = Workspace(ws).is_loaded(nick)
    env.check(env.implies(env.neg(none), loaded), 'the selected version is loaded')
    if loaded:
        got = files_of(env, ws + '/input/' + nick)
        env.check(len(got) == 1, 'the data is there')
        for cond, s in candidates:
            env.check(env.implies(i.content_id == s.content_id, got[0][1] == s.name.encode('utf-8')), 'the data is that of the version')


def workspace_with(env, inputs):
    env.cli('new', 'ws', cwd=env.root)
    ws = env.root + '/ws'
    for name, kind, cid, t in inputs:
        Workspace(ws).add_input(name, kind, cid, t)
    return ws


def loaded_already(env, ws, nick):
    """some data is loaded for the input"""
    os.chmod(ws + '/input', 0o755)
    os.mkdir(ws + '/input/' + nick)
    Path(ws + '/input/' + nick + '/old').write_text('old')
    os.chmod(ws + '/input', 0o555)


def current(env, vs, label='current', kind='k'):
    """what the input refers to: one of the versions or a bead that is nowhere"""
    k = env.num(label, 0, len(vs))
    if k < len(vs):
        return vs[k].kind, vs[k].content_id, vs[k].freeze_time
    return kind, 'nowhere', stamp(env, label + '.t')


def one(env, n, kinds, how, zones=False, indexed=(), places=('one', 'two', 'both'), loaded=False):
    """one input is updated"""
    vs = versions(env, n, kinds, zones, indexed, places)
    different(env, vs)
    before = current(env, vs)
    ws = workspace_with(env, [('in',) + before])
    was_loaded = loaded and env.flag('loaded')
    if was_loaded:
        if env.cli('input', 'load', 'in', cwd=ws).code != 0:
            loaded_already(env, ws, 'in')
    args = ['input', 'update', 'in']
    t = None
    if how == 'time':
        limit = stamp(env, 'limit', zones=zones)
        args += ['--time', limit]
        t = instant(limit)
    elif how in ('--next', '--prev'):
        args.append(how)
    x = env.cli(*args, cwd=ws)
    env.reach(how)
    now = instant(before[2])
    cands = []
    for s in vs:
        if how == 'newest':
            c = s.kind == before[0]
        elif how == 'time':
            c = env.all(s.kind == before[0], s.at <= t)
        elif how == '--next':
            c = env.all(s.kind == before[0], s.at > now)
        else:
            c = env.all(s.kind == before[0], s.at < now)
        cands.append((c, s))
    if how == '--next':
        check_selected(env, ws, 'in', cands, lambda a, b: a.at < b.at, before, x.code)
    else:
        check_selected(env, ws, 'in', cands, lambda a, b: a.at > b.at, before, x.code)


def every(env, n, kinds, inputs, time=False, zones=False, indexed=(), places=('one', 'two', 'both'), loaded=False):
    """all inputs are updated"""
    vs = versions(env, n, kinds, zones, indexed, places)
    different(env, vs)
    befores = []
    for k in range(len(inputs)):
        befores.append((inputs[k], 'nowhere%d' % k, stamp(env, 'current%d' % k)))
    ws = workspace_with(env, [('in%d' % k,) + befores[k] for k in range(len(befores))])
    if loaded:
        for k in range(len(befores)):
            if env.flag('loaded%d' % k):
                loaded_already(env, ws, 'in%d' % k)
    args = ['input', 'update']
    t = None
    if time:
        limit = stamp(env, 'limit')
        args += ['-t', limit]
        t = instant(limit)
    x = env.cli(*args, cwd=ws)
    env.reach('all')
    env.check(x.code == 0, 'updating all inputs works')
    for k in range(len(befores)):
        cands = [(env.all(s.kind == befores[k][0], s.at <= t if time else True), s) for s in vs]
        check_selected(env, ws, 'in%d' % k, cands, lambda a, b: a.at > b.at, befores[k])


def chain(env, n, zones=False, indexed=(), places=('one', 'two', 'both')):
    """going to the previous and the next version again and again"""
    vs = versions(env, n, ['k'] * n, zones, indexed, places)
    different(env, vs)
    k = env.num('current', 0, n - 1)
    ws = workspace_with(env, [('in', 'k', vs[k].content_id, vs[k].freeze_time)])
    x = env.cli('input', 'load', 'in', cwd=ws)
    x = env.cli('input', 'update', 'in', '--next', cwd=ws)
    env.reach('chain')
    if x.code == 0:
        x = env.cli('input', 'update', 'in', '--prev', cwd=ws)
        env.check(x.code == 0, 'there is a previous one')
        env.check(Workspace(ws).get_input('in').content_id == vs[k].content_id, 'previous is the inverse of next')
    else:
        newest = env.all(True, *[s.at <= vs[k].at for s in vs])
        env.check(newest, 'there is no next version of the newest only')


def one_bad(env, how, order, indexed=True, bad_kind='k'):
    """an archive that can not be used does not keep the other inputs from being updated"""
    from props.cmdlib import members_of
    import zipfile
    r = env.root
    vs = versions(env, 4, ['k', 'k', 'l', 'l'], False, ('one', 'two') if indexed else (), ['one', 'two', 'one', 'two'])
    different(env, vs)
    env.assume(env.all(vs[0].at < vs[1].at, vs[2].at < vs[3].at))
    inputs = []
    for nick in order:
        old = vs[0] if nick == 'a' else vs[2]
        inputs.append((nick, old.kind, old.content_id, old.freeze_time))
    ws = workspace_with(env, inputs)
    env.cli('input', 'load', cwd=ws)
    bad = vs[1] if bad_kind == 'k' else vs[3]
    good = vs[3] if bad_kind == 'k' else vs[1]
    nick, other = ('a', 'b') if bad_kind == 'k' else ('b', 'a')
    p = str(bad.path)
    if how == 'truncated':
        env.truncate_file(p)
    elif how == 'junk':
        os.unlink(p)
        env.junk_file(p)
    elif how == 'deleted':
        os.unlink(p)
    elif how == 'replaced':
        os.unlink(p)
        import shutil
        shutil.copy(str(good.path), p)
    elif how == 'unreadable':
        os.chmod(p, 0)
    elif how == 'damaged':
        env.damage_entry(p, 'data/data')
    before = [i for i in inputs if i[0] == nick][0]
    x = env.cli('input', 'update', cwd=ws)
    env.reach('one bad')
    env.check(not x.internal, 'it does not crash')
    i = Workspace(ws).get_input(other)
    env.check(env.all(i.content_id == good.content_id, i.freeze_time_str == good.freeze_time), 'the other input is updated')
    env.check([c for f, c in files_of(env, ws + '/input/' + other)] == [good.name.encode('utf-8')], 'with its data')
    i = Workspace(ws).get_input(nick)
    env.check(env.all(i.kind == before[1], i.content_id == before[2], i.freeze_time_str == before[3]), 'the input without a usable bead stays as it was')
    old = vs[0] if nick == 'a' else vs[2]
    env.check([c for f, c in files_of(env, ws + '/input/' + nick)] == [old.name.encode('utf-8')], 'with its data')
