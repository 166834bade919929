"""C38 status tells about each input exactly what the workspace and the boxes hold"""
import os
from bead.workspace import Workspace
from props.cmdlib import snapshot
from props.c17 import versions, different, current, workspace_with
from props.weblib import instant


def lines_with(section, what):
    return [l for l in section.split('\n') if what in l]


def status(env, n, kinds, places, nicks, indexed=(), zones=False, verbose=False, way='inside'):
    """versions of beads in two boxes, inputs that refer to any of them"""
    vs = versions(env, n, kinds, zones, indexed, places)
    different(env, vs)
    r = env.root
    inputs = [(nick,) + current(env, vs, nick) for nick in nicks]
    ws = workspace_with(env, inputs)
    loaded = []
    for nick in nicks:
        if env.flag(nick + ' is loaded'):
            os.chmod(ws + '/input', 0o755)
            os.mkdir(ws + '/input/' + nick)
            os.chmod(ws + '/input', 0o555)
            loaded.append(nick)
    before = snapshot(env, r)
    args = ['status'] + (['-v'] if verbose else []) + (['-w', ws] if way == 'given' else [])
    x = env.cli(*args, cwd=ws if way == 'inside' else r)
    env.reach('status')
    env.check(env.all(x.code == 0, not x.internal), 'status works')
    env.check(snapshot(env, r) == before, 'nothing is changed')
    sections = x.out.split('input/')
    env.check(lines_with(sections[0], 'Bead Name:') == ['Bead Name: ws'], 'the name is shown')
    if verbose:
        env.check(env.any(*[Workspace(ws).kind in l for l in lines_with(sections[0], 'kind')]), 'the kind is shown')
    env.check([s.split('\n')[0] for s in sections[1:]] == sorted(nicks), 'each input is shown once, by name')
    if not nicks:
        env.check('No inputs' in x.out, 'it is told that there are no inputs')
        return
    env.check(('not loaded' in sections[-1]) == (len(loaded) < len(nicks)), 'it is told whether some are not loaded')
    for s, (nick, kind, cid, t) in zip(sections[1:], sorted(inputs)):
        state = lines_with(s, 'Status:')
        env.check(len(state) == 1, 'the state is shown once')
        env.check(('NOT LOADED' in state[0]) == (nick not in loaded), 'the state is right')
        bead = lines_with(s, 'Bead:')
        env.check(len(bead) == 1, 'the bead is shown once')
        env.check(t in bead[0], 'the freeze time is shown')
        # the versions have different content ids and names
        same = [v for v in vs if v.content_id == cid]
        if same:
            env.check(env.all((same[0].name + ' ') in bead[0], 'MISSING' not in bead[0]), 'the name of the bead is shown')
        else:
            env.check('MISSING' in bead[0], 'a missing bead is shown as missing')
        if verbose:
            k = lines_with(s, 'Kind:')
            c = lines_with(s, 'Content id:')
            env.check(env.all(len(k) == 1, kind in k[0], len(c) == 1, cid in c[0]), 'the kind and the content id are shown')
        rows = lines_with(s, '-r ')
        have = []
        now = instant(t)
        for b in ('one', 'two'):
            best = None
            for v, place in zip(vs, places):
                if place in (b, 'both') and v.kind == kind and v.at <= now and (best is None or best.at < v.at):
                    best = v
            if best is not None:
                have.append((b, best))
        env.check(len(rows) == len(have), 'exactly the boxes having candidates are shown')
        for row, (b, best) in zip(rows, have):
            env.check(('-r ' + b + ' ') in row, 'in the order of the boxes')
            env.check(best.freeze_time in row, 'with the time of the best candidate')
            exact = best.content_id == cid
            env.check(env.all(('*' in row) == exact, ('~' in row) == (not exact), ('kind match' in row) == (not exact)), 'and whether it is the very bead')
        if not have:
            env.check('no candidates' in s, 'it is told that there are no candidates')


def broken(env, what):
    """status outside of workspaces changes nothing and says so"""
    r = env.root
    os.mkdir(r + '/ws')
    if what != 'nothing':
        env.cli('new', 'real', cwd=r)
        os.rename(r + '/real', r + '/ws/real')
        os.unlink(r + '/ws/real/.bead-meta/bead')
    before = snapshot(env, r, ['config'])
    x = env.cli('status', cwd=r + '/ws' + ('' if what == 'nothing' else '/real'))
    env.reach('broken')
    env.check(env.all(not x.internal, 'WARNING' in x.err, 'Bead Name' not in x.out), 'it is told that it is no workspace')
    env.check(snapshot(env, r, ['config']) == before, 'nothing is changed')
