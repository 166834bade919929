"""C37 a crash never leaves a half-made workspace that passes for a complete one"""
import os
from pathlib import Path
from bead.workspace import Workspace
from props.cmdlib import NAMES, known_box, named_files, write_files, snapshot, files_of, same_files

OWN = ('input', 'output', 'temp', '.bead-meta')
T0 = '20200101T000000000001+0000'


def about_new(env, lo, hi, n=1, again=False):
    """the process dies while a workspace is made"""
    r = env.root
    os.mkdir(r + '/work')
    Path(r + '/work/other').write_text('other')
    known_box(env, 'box')
    name = env.text('name', [('a', 'z')], n, n)
    env.assume(env.neg(name == 'other'))
    before = snapshot(env, r + '/work')
    ws = r + '/work/' + name
    at = env.num('crash', lo, hi)
    x = env.cli('new', name, cwd=r + '/work', crash_at=at)
    env.assume(x.crashed)
    rest = [e for e in snapshot(env, r + '/work') if not (e[0] == name or e[0].startswith(name + '/'))]
    env.check(rest == before, 'nothing else is changed')
    if os.path.lexists(ws) and Workspace(ws).is_valid:
        env.reach('complete')
        w = Workspace(ws)
        env.check(env.all(w.kind != '', w.inputs == ()), 'it is a complete new workspace')
        x = env.cli('status', cwd=ws)
        env.check(env.all(x.code == 0, not x.internal, ('Bead Name: ' + name) in x.out, 'No inputs defined' in x.out), 'its status is shown')
        x = env.cli('save', 'box', cwd=ws)
        env.check(env.all(x.code == 0, not x.internal), 'it can be saved')
    elif os.path.lexists(ws):
        env.reach('incomplete')
        left = snapshot(env, ws)
        x = env.cli('save', 'box', '-w', name, cwd=r + '/work')
        env.check(env.all(x.code != 0, not x.internal), 'it is not taken for a workspace')
        env.check(os.listdir(r + '/box') == [], 'nothing is saved')
        env.check(snapshot(env, ws) == left, 'it is left alone')
        x = env.cli('discard', '--force', name, cwd=r + '/work')
        env.check(env.all(x.code == 0, not os.path.lexists(ws)), 'it can be removed')
        x = env.cli('new', name, cwd=r + '/work')
        env.check(env.all(x.code == 0, Workspace(ws).is_valid), 'it can be made again')
    else:
        env.reach('nothing')
        x = env.cli('new', name, cwd=r + '/work')
        env.check(env.all(x.code == 0, Workspace(ws).is_valid), 'it can be made again')


def about_edit(env, code, data, lo, hi, review=False, inputs=1, n=1, fault=False, errno=28):
    """the process dies (or an operation fails) while a bead is unpacked for editing"""
    r = env.root
    box = known_box(env, 'box')
    os.mkdir(r + '/work')
    Path(r + '/work/other').write_text('other')
    codes = named_files(env, code, 'code.', NAMES, n)
    for path, c in codes:
        env.assume(env.neg(env.any(*[path.split('/')[0] == o for o in OWN])))
    datas = named_files(env, data, 'data.', NAMES, n)
    made = [('in%d' % k, env.atom('kind%d' % k), env.atom('cid%d' % k), '20200101T00000000000%d+0000' % k) for k in range(inputs)]
    kind = env.atom('kind')
    os.mkdir(r + '/source')
    source = Workspace(r + '/source/bead')
    source.create(kind)
    for i in made:
        source.add_input(*i)
    write_files(env, r + '/source/bead', codes)
    write_files(env, r + '/source/bead/output', datas)
    box.store(source, T0)
    before = snapshot(env, r + '/work')
    boxed = snapshot(env, r + '/box')
    at = env.num('fault' if fault else 'crash', lo, hi)
    ws = r + '/work/ws'
    x = env.cli('edit', 'bead', 'ws', *(['--review'] if review else []), cwd=r + '/work', **(dict(fault_at=at, errno=errno) if fault else dict(crash_at=at)))
    if fault:
        env.assume(at < env.events)
        if x.code == 0:
            env.check(Workspace(ws).is_valid, 'a success is reported only when the workspace is made')
            env.check(same_files(env, files_of(env, ws + '/output'), datas if review else []), 'the data is that of the bead')
    else:
        env.assume(x.crashed)
    rest = [e for e in snapshot(env, r + '/work') if not (e[0] == 'ws' or e[0].startswith('ws/') or e[0].startswith('error_'))]
    env.check(rest == before, 'nothing else is changed')
    env.check(snapshot(env, r + '/box') == boxed, 'the box is unchanged')
    if os.path.lexists(ws) and Workspace(ws).is_valid:
        env.reach('complete')
        w = Workspace(ws)
        env.check(w.kind == kind, 'the kind is that of the bead')
        got = [(i.name, i.kind, i.content_id, i.freeze_time_str) for i in w.inputs]
        env.check(len(got) == inputs, 'the inputs are those of the bead')
        for i in made:
            env.check(env.any(False, *[env.all(*[a == b for a, b in zip(i, g)]) for g in got]), 'the inputs are those of the bead')
        files = [(p, c) for p, c in files_of(env, ws) if p.split('/')[0] not in OWN]
        env.check(same_files(env, files, codes), 'the code is that of the bead')
        x = env.cli('status', cwd=ws)
        env.check(env.all(x.code == 0, not x.internal), 'its status is shown')
    else:
        env.reach('incomplete')
        x = env.cli('save', 'box', '-w', 'ws', cwd=r + '/work')
        env.check(env.all(x.code != 0, not x.internal), 'it is not taken for a workspace')
        env.check(snapshot(env, r + '/box') == boxed, 'nothing is saved')
        if os.path.lexists(ws):
            x = env.cli('discard', '--force', 'ws', cwd=r + '/work')
            env.check(env.all(x.code == 0, not os.path.lexists(ws)), 'it can be removed')
        x = env.cli('edit', 'bead', 'ws', cwd=r + '/work')
        env.check(env.all(x.code == 0, Workspace(ws).is_valid), 'it can be edited again')
