"""C33 a failing archive or box never hides results of other boxes"""
import os
import shutil
from pathlib import Path
from bead.workspace import Workspace
from props.boxlib import new_box, save, index
from props.cmdlib import known_box, check_data, snapshot

T0 = '20200101T000000000001+0000'


def versions(env, n):
    """versions of a bead, in a place that is not a known box"""
    other = new_box(env, 'elsewhere')
    kind = env.atom('kind')
    out = []
    for i in range(n):
        data = env.atom('data%d' % i)
        s = save(env, other, 'src', '20200101T00000000000%d+0000' % (i + 1), kind, data=data)
        s.data = data
        out.append(s)
    return out


def fill(env, box, state, s, wrong):
    """put something in a box; wrong: a bead that does not match"""
    d = str(box.directory)
    if state in ('bead', 'indexed', 'bead and others'):
        shutil.copy(s.path, d + '/' + s.path.name)
        if state == 'bead and others':
            shutil.copy(wrong.path, d + '/a_20200303.zip')
            env.junk_file(d + '/b.zip')
        if state == 'indexed':
            index(box)
    elif state == 'damaged':
        shutil.copy(s.path, d + '/' + s.path.name)
        env.damage_entry(d + '/' + s.path.name, 'data/data')
    elif state == 'both':
        shutil.copy(s.path, d + '/' + s.path.name)
        env.damage_entry(d + '/' + s.path.name, 'data/data')
        shutil.copy(s.path, d + '/other_20200303.zip')
    elif state == 'stale':
        shutil.copy(s.path, d + '/' + s.path.name)
        index(box)
        os.unlink(d + '/' + s.path.name)
    elif state == 'stale copy':
        shutil.copy(s.path, d + '/' + s.path.name)
        shutil.copy(s.path, d + '/zzz_20200303.zip')
        index(box)
        os.unlink(d + '/' + s.path.name)
    elif state == 'replaced':
        shutil.copy(s.path, d + '/' + s.path.name)
        index(box)
        os.unlink(d + '/' + s.path.name)
        shutil.copy(wrong.path, d + '/' + s.path.name)
    elif state == 'wrong':
        shutil.copy(wrong.path, d + '/' + wrong.path.name)
    elif state == 'wrong indexed':
        shutil.copy(wrong.path, d + '/' + wrong.path.name)
        index(box)
    elif state == 'junk':
        env.junk_file(d + '/src_20200101T000000000001+0000.zip')
        os.mkdir(d + '/src.zip')
    elif state == 'missing':
        os.rmdir(d)
    elif state == 'file':
        os.rmdir(d)
        Path(d).write_text('x')
    elif state == 'empty indexed':
        index(box)
    else:
        env.check(state == 'empty', 'state')


HAVE = ('bead', 'indexed', 'bead and others', 'both', 'stale copy')


def the_workspace(env, s, loaded=False):
    ws = Workspace(env.root + '/ws')
    ws.create('kind of ws')
    ws.add_input('in', s.kind, s.content_id, s.freeze_time)
    (ws.directory / 'output' / 'result').write_text('result')
    return env.root + '/ws'


def loading(env, n, states, fixed=None):
    """loading an input finds its bead in any of the boxes"""
    a, wrong = versions(env, 2)
    ws = the_workspace(env, a)
    have = False
    for k in range(n):
        box = known_box(env, 'box%d' % k)
        state = env.pick('state%d' % k, list(states))
        fill(env, box, state, a, wrong)
        have = have or state in HAVE
    before = snapshot(env, ws)
    x = env.cli('input', 'load', *(['in'] if env.flag('by name') else []), cwd=ws)
    env.check(env.all(x.code == 0, not x.internal), 'load works')
    if have:
        env.reach('loaded')
        check_data(env, ws, 'in', [('data', a.data.encode('utf-8'))])
        i = Workspace(ws).get_input('in')
        env.check(env.all(i.kind == a.kind, i.content_id == a.content_id, i.freeze_time_str == a.freeze_time), 'the input is the same')
    else:
        env.reach('not loaded')
        env.check(snapshot(env, ws) == before, 'nothing is changed')
        env.check('WARNING' in x.err, 'it is reported')


SEEN = ('bead', 'indexed', 'bead and others', 'both', 'stale copy')


def status(env, n, states, verbose=False):
    """status finds the bead of an input in any of the boxes"""
    a, wrong = versions(env, 2)
    ws = the_workspace(env, a)
    have = False
    exact = []
    for k in range(n):
        box = known_box(env, 'box%d' % k)
        state = env.pick('state%d' % k, list(states))
        fill(env, box, state, a, wrong)
        have = have or state in HAVE
        if state in HAVE:
            exact.append('box%d' % k)
    x = env.cli('status', *(['-v'] if verbose else []), cwd=ws)
    env.check(env.all(x.code == 0, not x.internal), 'status works')
    if have:
        env.reach('shown')
        env.check('Bead:        src # ' + a.freeze_time in x.out, 'the name of the bead is shown')
        for b in exact:
            env.check(' * -r ' + b + ' # ' + a.freeze_time in x.out, 'each box having it is shown')
    else:
        env.reach('missing')
        env.check('**MISSING**' in x.out, 'it is shown that it is missing')
        env.check('no candidates' in x.out, 'no boxes are shown')
    for k in range(n):
        if 'box%d' % k not in exact:
            env.check(env.neg(('-r box%d' % k) in x.out), 'no other boxes are shown')


def updating(env, n, states, offset=None):
    """update takes the best version from all of the boxes"""
    vs = versions(env, 3)
    # not the same kind
    wrong = save(env, new_box(env, 'wrong'), 'src', '20200101T000000000009+0000', env.atom('other kind'), data='wrong')
    env.assume(env.neg(wrong.kind == vs[0].kind))
    ws = the_workspace(env, vs[1])
    have = []
    for k in range(n):
        box = known_box(env, 'box%d' % k)
        which = env.num('version%d' % k, 0, 2)
        state = env.pick('state%d' % k, list(states))
        fill(env, box, state, vs[which], wrong)
        if state in HAVE:
            have.append(which)
    before = snapshot(env, ws)
    x = env.cli('input', 'update', 'in', *([offset] if offset else []), cwd=ws)
    env.check(not x.internal, 'no internal error')
    if offset == '--next':
        have = [k for k in have if k > 1]
    elif offset == '--prev':
        have = [k for k in have if k < 1]
    if have:
        env.reach('updated')
        env.check(x.code == 0, 'update works')
        s = vs[max(have)]
        i = Workspace(ws).get_input('in')
        env.check(env.all(i.kind == s.kind, i.content_id == s.content_id, i.freeze_time_str == s.freeze_time), 'the input is the best version')
        check_data(env, ws, 'in', [('data', s.data.encode('utf-8'))])
    else:
        env.reach('not updated')
        env.check(x.code != 0, 'it is reported')
        env.check(snapshot(env, ws) == before, 'nothing is changed')
