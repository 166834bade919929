"""C07 foreign or damaged files in a box never break or change searches"""
import json
import os
import shutil
import zipfile
from pathlib import Path
from bead.box import search
from props.boxlib import new_box, save, reopened, index, check_found
from props.lib import ts_shape, ts_fields, field_ok
from props.weblib import stamp, instant

GOOD_TIME = '20200101T000000000005+0000'


def two_beads(env, box):
    specs = [('in0', 'ik', 'ic', GOOD_TIME)]
    return [save(env, box, 'a', '20200101T000000000003+0000', 'k0', specs, data='data'),
            save(env, box, 'ab', '20200101T000000000017+0000', 'k1', data='data')]


def searches(env, box, expected, names=('a', 'ab', 'x')):
    """all kinds of searches give exactly what they should"""
    check_found(env, reopened(box).search().all(), expected, 'all: ')
    kind = env.pick('condition', ['name', 'kind', 'cid', 'time', 'first', 'newest'])
    q = reopened(box).search()
    if kind == 'name':
        n = env.pick('q.name', list(names))
        check_found(env, q.by_name(n).all(), [s for s in expected if s.name == n], 'name: ')
    elif kind == 'kind':
        n = env.pick('q.kind', ['k0', 'k1', 'junk'])
        check_found(env, q.by_kind(n).all(), [s for s in expected if s.kind == n], 'kind: ')
    elif kind == 'cid':
        n = env.pick('q.cid', [s.content_id for s in expected] + ['nosuch'])
        check_found(env, q.by_content_id(n).all(), [s for s in expected if s.content_id == n], 'content id: ')
    elif kind == 'time':
        t = '20200101T000000000010+0000'
        found = [s for s in expected if instant(s.freeze_time) < 10]
        check_found(env, q.older_than(t).all(), found, 'time: ')
    elif kind == 'first':
        b = search([reopened(box)]).first()
        env.check(len([s for s in expected if env.all(s.name == b.name, s.content_id == b.content_id)]) == 1, 'first')
    else:
        b = search([reopened(box)]).newest()
        env.check(env.all(*[instant(b.freeze_time_str) >= instant(s.freeze_time) for s in expected]), 'newest')


def around(env, how, make, extra=()):
    """a box where make(directory, stored) puts files; it returns beads that are to be found in addition"""
    box = new_box(env)
    if how == 'before':
        index(box)
        box = reopened(box)
    if how == 'first':
        more = make(box, [])
        stored = two_beads(env, box)
    else:
        stored = two_beads(env, box)
        more = make(box, stored)
    if how == 'after':
        index(box)
    if how == 'before' and env.flag('index updated'):
        index(box)
    elif how == 'before':
        more = []
    env.reach(how)
    searches(env, box, stored + list(more or []), ('a', 'ab', 'x') + tuple(extra))


FILES = ['junk', 'empty', 'text', 'truncated', 'directory', 'directory with archive', 'dangling link', 'not zip name', 'loop', 'fifo']


def foreign(env, how, names=('junk.zip', 'a.zip', 'a_20200101T000000000000+0000.zip', 'a__b_20200101T000000000000+0000.zip', 'x[1].zip')):
    """files that are not archives"""
    def make(box, stored):
        name = env.pick('file name', list(names))
        what = env.pick('file', FILES)
        p = str(box.directory) + '/' + name
        if os.path.lexists(p):
            env.assume(False)
        if what == 'junk':
            env.junk_file(p)
        elif what == 'empty':
            Path(p).write_bytes(b'')
        elif what == 'text':
            Path(p).write_text('text')
        elif what == 'truncated':
            if not stored:
                env.assume(False)
            shutil.copy(stored[0].path, p)
            env.truncate_file(p)
        elif what == 'directory':
            os.mkdir(p)
        elif what == 'directory with archive':
            if not stored:
                env.assume(False)
            os.mkdir(p)
            shutil.copy(stored[0].path, p + '/a_20200101T000000000000+0000.zip')
        elif what == 'dangling link':
            os.symlink('/nonexistent/file', p)
        elif what == 'loop':
            os.symlink(p, p)
        elif what == 'not zip name':
            if not stored:
                env.assume(False)
            shutil.copy(stored[0].path, str(box.directory) + '/other.ZIPPED')
        else:
            env.assume(False)
    around(env, how, make)


def write_archive(path, members):
    with zipfile.ZipFile(path, 'w') as z:
        for name, text in members:
            z.writestr(name, text)


def meta_of(stored):
    with zipfile.ZipFile(stored.path) as z:
        return json.loads(z.read('meta/bead').decode('utf-8')), z.read('meta/manifest').decode('utf-8')


GOOD_INPUT = {'kind': 'k', 'content_id': 'c', 'freeze_time': GOOD_TIME}
METAS = [
    ('absent', None), ('not json', 'this is not json'), ('empty', ''), ('unfinished', '{'), ('number', '5'), ('null', 'null'), ('list', '[]'), ('text', '"meta"'), ('no keys', '{}'),
]
KEYS = ['meta_version', 'kind', 'freeze_time', 'inputs']
VALUES = [('version', 'meta_version', 'other'), ('version number', 'meta_version', 1), ('kind null', 'kind', None), ('kind number', 'kind', 5), ('kind list', 'kind', []),
          ('time null', 'freeze_time', None), ('time number', 'freeze_time', 20200101), ('time list', 'freeze_time', []), ('time iso', 'freeze_time', '2020-01-01'), ('time month', 'freeze_time', '20201301T000000000000+0000'), ('time empty', 'freeze_time', ''),
          ('time newline', 'freeze_time', GOOD_TIME + '\n'), ('time zone', 'freeze_time', '20200101T000000000000+2400'),
          ('inputs null', 'inputs', None), ('inputs number', 'inputs', 7), ('inputs text', 'inputs', 'in'), ('inputs list', 'inputs', ['in']), ('inputs pairs', 'inputs', [['in', GOOD_INPUT]]),
          ('input name', 'inputs', {'a__b': GOOD_INPUT}), ('input name dot', 'inputs', {'..': GOOD_INPUT}), ('input name slash', 'inputs', {'a/b': GOOD_INPUT}), ('input name empty', 'inputs', {'': GOOD_INPUT}),
          ('input null', 'inputs', {'in': None}), ('input list', 'inputs', {'in': []}), ('input text', 'inputs', {'in': 'x'}), ('input empty', 'inputs', {'in': {}}),
          ('input no kind', 'inputs', {'in': {'content_id': 'c', 'freeze_time': GOOD_TIME}}), ('input no id', 'inputs', {'in': {'kind': 'k', 'freeze_time': GOOD_TIME}}), ('input no time', 'inputs', {'in': {'kind': 'k', 'content_id': 'c'}}),
          ('input kind null', 'inputs', {'in': dict(GOOD_INPUT, kind=None)}), ('input id number', 'inputs', {'in': dict(GOOD_INPUT, content_id=5)}), ('input id list', 'inputs', {'in': dict(GOOD_INPUT, content_id=[])}),
          ('input time null', 'inputs', {'in': dict(GOOD_INPUT, freeze_time=None)}), ('input time bad', 'inputs', {'in': dict(GOOD_INPUT, freeze_time='now')}), ('input time number', 'inputs', {'in': dict(GOOD_INPUT, freeze_time=1)})]


def malformed(env, how, part):
    """archives whose metadata is missing or malformed, or that have no manifest"""
    def make(box, stored):
        if not stored:
            env.assume(False)
        meta, manifest = meta_of(stored[0])
        members = [('code/x', 'x')]
        if part == 'text':
            what, text = env.pick('meta', METAS)
            if text is not None:
                members.append(('meta/bead', text))
            members.append(('meta/manifest', manifest))
        elif part == 'keys':
            del meta[env.pick('missing', KEYS)]
            members += [('meta/bead', json.dumps(meta)), ('meta/manifest', manifest)]
        elif part == 'values':
            what, key, value = env.pick('malformed', VALUES)
            meta[key] = value
            members += [('meta/bead', json.dumps(meta)), ('meta/manifest', manifest)]
        elif part == 'manifest':
            members += [('meta/bead', json.dumps(meta))]
        elif part == 'nothing':
            members = []
        else:
            members = [('bead', json.dumps(meta)), ('manifest', manifest)]
        write_archive(str(box.directory) + '/' + (env.pick('file name', ['x.zip', 'a_20200101T000000999999+0000.zip']) if part != 'values' else 'ab_x.zip'), members)
    around(env, how, make)


def damaged_member(env, how, member):
    """an archive whose metadata or manifest is unreadable"""
    def make(box, stored):
        if not stored:
            env.assume(False)
        p = str(box.directory) + '/a_20200101T000000999999+0000.zip'
        shutil.copy(stored[0].path, p)
        env.damage_entry(p, member, env.pick('way', ['data', 'deflate', 'compression', 'encryption']))
    around(env, how, make)


def odd_time(env, how, pos):
    """any character at some place of the freeze time: the archive is a bead exactly when the result is a timestamp"""
    def make(box, stored):
        if not stored:
            env.assume(False)
        meta, manifest = meta_of(stored[0])
        t = GOOD_TIME[:pos] + env.text('char', [('\0', '\ud7ff')], 1, 1) + GOOD_TIME[pos + 1:]
        meta['freeze_time'] = t
        ok = False
        if ts_shape(env, t):
            ok = field_ok(env, ts_fields(t))
        env.assume(env.neg(ok))
        write_archive(str(box.directory) + '/x.zip', [('meta/bead', json.dumps(meta)), ('meta/manifest', manifest)])
    around(env, how, make)


def odd_name(env, how, n):
    """a sound archive under any file name: it is there under that name, or, if no bead can have that name, ignored"""
    def make(box, stored):
        if not stored:
            env.assume(False)
        name = env.text('name', ['_', '.', 'a', '['], n, n)
        env.assume(env.any(*[env.neg(c == '.') for c in name]))
        other = save(env, new_box(env, 'elsewhere'), 'x', '20200101T000000000055+0000', 'k0', data='other')
        path = str(box.directory) + '/' + name + '.zip'
        os.rename(other.path, path)
        other.name = name
        if '__' in name:
            env.reach('impossible name')
            return []
        return [other]
    around(env, how, make)
