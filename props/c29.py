"""C29 damaged or wrong beads are never unpacked or loaded"""
import os
import shutil
import zipfile
from pathlib import Path
from bead import zipopener
from bead.workspace import Workspace
from props.boxlib import save, index
from props.cmdlib import known_box, snapshot, members_of, files_of, NAMES
from props.weblib import stamp

DAMAGE = ('unreadable', 'odd compression', 'unreadable code', 'changed data', 'changed code', 'extra data', 'extra code', 'missing data', 'missing code', 'renamed', 'meta changed', 'no manifest', 'bad manifest', 'future', 'meta incomplete', 'truncated')


def damage(env, path, how):
    """make a saved bead invalid"""
    zipopener.close_all()
    if how == 'unreadable':
        env.damage_entry(path, 'data/data')
        return
    if how == 'odd compression':
        env.damage_entry(path, env.pick('member', ['data/data', 'code/code', 'meta/bead', 'meta/manifest']), env.pick('way', ['compression', 'encryption', 'deflate']))
        return
    if how == 'unreadable code':
        env.damage_entry(path, 'code/code')
        return
    if how == 'truncated':
        env.truncate_file(path)
        return
    members = members_of(path)
    names = [n for n, c in members]

    def change(name, content):
        members[names.index(name)] = (name, content)
    if how in ('changed data', 'changed code'):
        name = 'data/data' if how == 'changed data' else 'code/code'
        new = env.content('new content')
        env.assume(env.neg(new == members[names.index(name)][1]))
        change(name, new)
    elif how in ('extra data', 'extra code'):
        new = ('data/' if how == 'extra data' else 'code/') + env.text('extra', NAMES, 1, 2)
        for n in names:
            env.assume(env.neg(new == n))
        members.insert(env.num('place', 0, len(members)), (new, env.content('extra content')))
    elif how in ('missing data', 'missing code'):
        del members[names.index('data/data' if how == 'missing data' else 'code/code')]
    elif how == 'renamed':
        k = names.index('data/data')
        new = 'data/' + env.text('renamed', NAMES, 1, 4)
        env.assume(env.neg(new == 'data/data'))
        members[k] = (new, members[k][1])
    elif how == 'meta changed':
        import json
        meta = json.loads(members[names.index('meta/bead')][1].decode('utf-8'))
        meta['freeze_name'] = env.atom('new name')
        env.assume(env.neg(meta['freeze_name'] == 'b'))
        change('meta/bead', json.dumps(meta, indent=4, sort_keys=True).encode('utf-8'))
    elif how == 'no manifest':
        del members[names.index('meta/manifest')]
    elif how == 'bad manifest':
        change('meta/manifest', b'{')
    elif how in ('future', 'meta incomplete'):
        import json
        from bead.tech import securehash
        meta = json.loads(members[names.index('meta/bead')][1].decode('utf-8'))
        if how == 'future':
            meta['freeze_time'] = env.pick('future', ['20210101T000000000000+0000', '20200913T122640000001+0000', '99991231T235959999999+0000'])
        else:
            del meta['freeze_name']
        text = json.dumps(meta).encode('utf-8')
        change('meta/bead', text)
        manifest = json.loads(members[names.index('meta/manifest')][1].decode('utf-8'))
        manifest['meta/bead'] = securehash.bytes(text)
        change('meta/manifest', json.dumps(manifest).encode('utf-8'))
    os.unlink(path)
    with zipfile.ZipFile(path, 'w') as z:
        for n, c in members:
            z.writestr(n, c)


def the_rest(env):
    return [e for e in snapshot(env, env.root, ['config']) if not e[0].split('/')[-1].startswith('error_')]


def flow(env, how, command, ref='name', indexed='no', state='loaded', extra=None):
    """the bead a command would use is damaged"""
    r = env.root
    box = known_box(env, 'box')
    old = save(env, box, 'b', '20200101T000000000000+0000', 'k', data=env.atom('old'), code=env.atom('old code'))
    bad = save(env, box, 'b', '20200102T000000000000+0000', 'k', data=env.atom('data'), code=env.atom('code'))
    if indexed == 'before':
        index(box)
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    Path(ws + '/x').write_text('x')
    if command in ('update', 'update all', 'update ref', 'add again', 'next'):
        w = Workspace(ws)
        w.add_input('in', 'k', old.content_id, old.freeze_time)
        if state == 'loaded':
            x = env.cli('input', 'load', 'in', cwd=ws)
            env.check(x.code == 0, 'load works')
    elif command in ('load', 'load all'):
        w = Workspace(ws)
        w.add_input('in', 'k', bad.content_id, bad.freeze_time)
    damage(env, str(bad.path), how)
    if indexed == 'after':
        index(box)
    before = the_rest(env)
    arg = 'b' if ref == 'name' else str(bad.path)
    args = {'edit': ['edit', arg, 'dest'], 'review': ['edit', '--review', arg, 'dest'], 'add': ['input', 'add', 'in', arg], 'add again': ['input', 'add', 'in', arg], 'load': ['input', 'load', 'in'], 'load all': ['input', 'load'],
            'update': ['input', 'update', 'in'], 'update all': ['input', 'update'], 'update ref': ['input', 'update', 'in', arg], 'next': ['input', 'update', 'in', '--next']}[command]
    # a damaged archive may be skipped by the search, and then the other version is the newest
    x = env.cli(*args, cwd=r if command in ('edit', 'review') else ws)
    env.reach('damaged')
    after = the_rest(env)
    w = Workspace(ws)
    if after == before:
        if command == 'add again' and ref == 'name' and 'b_20200101' in x.out:
            return      # the sound version is loaded once more
        env.check(x.err != '' or 'Skipping' in x.out, 'it is reported')
        return
    env.check(ref == 'name', 'a damaged bead is not used')
    env.check(command not in ('load', 'load all', 'next'), 'a damaged bead is not loaded')
    # only the sound version can have been used
    if command in ('edit', 'review'):
        env.check(Path(r + '/dest/code').read_bytes() == old_content(env, old, 'code/code'), 'the code is that of the sound version')
        if command == 'review':
            env.check(Path(r + '/dest/output/data').read_bytes() == old_content(env, old, 'data/data'), 'the data is that of the sound version')
    else:
        i = w.get_input('in')
        env.check(i.content_id == old.content_id, 'the input refers to the sound version')
        env.check(files_of(env, ws + '/input/in') == [('data', old_content(env, old, 'data/data'))], 'the data is that of the sound version')


def old_content(env, s, name):
    return [c for n, c in members_of(str(s.path)) if n == name][0]


def wrong(env, command, how):
    """an archive with other content than recorded is not loaded"""
    r = env.root
    box = known_box(env, 'box')
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    one = save(env, box, 'b', '20200101T000000000000+0000', 'k', data=env.atom('one'))
    two = save(env, box, 'b', '20200102T000000000000+0000', 'k', data=env.atom('two'))
    for s in (one, two):
        s.data = old_content(env, s, 'data/data')
    env.assume(env.neg(one.content_id == two.content_id))
    cid = one.content_id
    Workspace(ws).add_input('in', 'k', cid, one.freeze_time)
    index_first = env.flag('indexed')
    if index_first:
        index(box)
    if how == 'replaced':
        os.unlink(one.path)
        shutil.copy(two.path, one.path)
    elif how == 'removed':
        os.unlink(one.path)
    elif how == 'swapped':
        os.rename(one.path, r + '/box/x')
        os.rename(two.path, one.path)
        os.rename(r + '/box/x', two.path)
    elif how == 'unknown':
        Workspace(ws).add_input('in', 'k', env.atom('any'), one.freeze_time)
        cid = Workspace(ws).get_input('in').content_id
    before = the_rest(env)
    x = env.cli('input', *([command, 'in'] if command == 'load' else ['load']), cwd=ws)
    env.reach('wrong')
    w = Workspace(ws)
    i = w.get_input('in')
    env.check(env.all(i.content_id == cid, i.kind == 'k', i.freeze_time_str == one.freeze_time), 'loading keeps the definition')
    if w.is_loaded('in'):
        env.reach('right')
        content = files_of(env, ws + '/input/in')
        env.check(len(content) == 1, 'the data is complete')
        env.check(env.any(env.all(cid == one.content_id, content[0][1] == one.data), env.all(cid == two.content_id, content[0][1] == two.data)), 'the data is that of the recorded bead')
    else:
        env.check(the_rest(env) == before, 'nothing is changed')
        env.check(x.err != '', 'it is reported')



def during(env, command, how, indexed, last, under='box'):
    """the archive is replaced by a damaged or another one while it is being used"""
    r = env.root
    box = known_box(env, 'box')
    old = save(env, box, 'b', '20200101T000000000000+0000', 'k', data=env.atom('old'), code=env.atom('old code'))
    new = save(env, box, 'b', '20200102T000000000000+0000', 'k', data=env.atom('data'), code=env.atom('code'))
    for s in (old, new):
        s.data, s.code = old_content(env, s, 'data/data'), old_content(env, s, 'code/code')
    env.assume(env.neg(old.content_id == new.content_id))
    if indexed:
        index(box)
    env.cli('new', 'ws', cwd=r)
    ws = r + '/ws'
    if command in ('update', 'load', 'load all'):
        Workspace(ws).add_input('in', 'k', (old if command == 'update' else new).content_id, (old if command == 'update' else new).freeze_time)
    spare = r + '/spare.zip'
    if how == 'other':
        shutil.copy(old.path, spare)
    else:
        shutil.copy(new.path, spare)
        if how != 'gone':
            damage(env, spare, how)
    before = the_rest(env)

    def doit():
        if how == 'gone':
            os.unlink(new.path)
        else:
            os.rename(spare, new.path)
        return True
    at = env.num('access', 0, last)
    env.meanwhile(doit, at, under=str(box.directory))
    args = {'edit': ['edit', 'b', 'dest'], 'review': ['edit', '--review', 'b', 'dest'], 'file': ['edit', str(new.path), 'dest'], 'add': ['input', 'add', 'in', 'b'], 'load': ['input', 'load', 'in'], 'load all': ['input', 'load'], 'update': ['input', 'update', 'in']}[command]
    x = env.cli(*args, cwd=r if command in ('edit', 'review', 'file') else ws)
    ran, _ = env.meanwhile_ran(last)
    env.reach('replaced meanwhile' if ran else 'not replaced')
    versions = [new, old]
    w = Workspace(ws)
    if command in ('edit', 'review', 'file'):
        if os.path.lexists(r + '/dest'):
            env.check(x.code == 0, 'what is there is complete')
            code = files_of(env, r + '/dest')
            code = [f for f in code if not f[0].startswith('.bead-meta/') and not f[0].startswith('output/')]
            env.check(len(code) == 1, 'all of the code is there')
            env.check(env.any(False, *[code == [('code', s.code)] for s in versions]), 'the code is that of a version')
            if command == 'review':
                data = files_of(env, r + '/dest/output')
                env.check(env.any(False, *[env.all(code == [('code', s.code)], data == [('data', s.data)]) for s in versions]), 'the data is that of the version')
        else:
            env.check(env.all(ran, x.code != 0), 'it is refused only if needed')
        return
    if w.has_input('in') and w.is_loaded('in'):
        i = w.get_input('in')
        data = files_of(env, ws + '/input/in')
        env.check(env.any(False, *[env.all(i.content_id == s.content_id, i.freeze_time_str == s.freeze_time, data == [('data', s.data)]) for s in versions]), 'the data and the definition are those of a version')
        if command in ('load', 'load all'):
            env.check(i.content_id == new.content_id, 'the definition is kept')
    else:
        env.check(ran, 'it is refused only if needed')
        env.check(os.listdir(ws + '/input') == [], 'nothing is loaded')
        if command == 'add':
            env.check(env.neg(w.has_input('in')), 'nothing is defined')
        else:
            i = w.get_input('in')
            env.check(i.content_id == (old if command == 'update' else new).content_id, 'the definition is kept')
