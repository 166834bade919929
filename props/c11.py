"""C11 resolving a bead yields that very bead or an error"""
import os
import shutil
from pathlib import Path
from bead import zipopener
from bead.box import Box, search, resolve
from bead.ziparchive import ZipArchive
from bead.exceptions import InvalidArchive, BoxIndexError
from props.boxlib import new_box, save, reopened, index

REFUSED = (LookupError, ValueError, InvalidArchive, BoxIndexError)


def boxes_of(env, counts, indexed, names, same_box_name):
    """boxes with beads of any of these names; the data tells which one it is"""
    boxes = []
    stored = []
    for k in range(len(counts)):
        b = new_box(env, 'box%d' % k)
        if same_box_name:
            b = Box('box', b.location)
        if k in indexed and env.flag('index%d first' % k):
            index(b)
            b = reopened(b)
        for i in range(counts[k]):
            tag = '%d%d' % (k, i)
            s = save(env, b, env.pick('name' + tag, names), '20200101T0000000000%s+0000' % tag, env.atom('kind' + tag), data=env.atom('data' + tag))
            s.box = b
            stored.append(s)
        boxes.append(b)
    return boxes, stored


def change(env, boxes, stored, what):
    """something happens to the files of the boxes"""
    k = env.num('file', 0, len(stored) - 1)
    p = stored[k].path
    if what == 'rename':
        new = str(p.parent) + '/' + env.pick('new name', ['a', 'b', 'c', 'a__b']) + env.pick('suffix', ['', '_20200101', '_20200102T000000000000+0000']) + '.zip'
        env.assume(env.neg(os.path.exists(new)))
        os.rename(p, new)
    elif what == 'delete':
        os.unlink(p)
    elif what == 'replace':
        j = env.num('by', 0, len(stored) - 1)
        env.assume(j != k)
        shutil.copy(stored[j].path, str(p) + '.tmp')
        os.replace(str(p) + '.tmp', p)
    elif what == 'remake':
        # another bead of that name and maybe of that time and kind comes to the place of it
        aside = new_box(env, 'aside')
        day = env.pick('other time', [stored[k].freeze_time, '20200102T000000000000+0000'])
        other = save(env, aside, stored[k].name, day, env.atom('other kind'), data=env.atom('other data'))
        os.replace(other.path, p)
    elif what == 'swap':
        j = env.num('by', 0, len(stored) - 1)
        env.assume(j < k)
        os.rename(p, str(p) + '.tmp')
        os.rename(stored[j].path, p)
        os.rename(str(p) + '.tmp', stored[j].path)
    elif what == 'junk':
        env.junk_file(str(p) + '.tmp')
        os.replace(str(p) + '.tmp', p)
    elif what == 'directory':
        os.unlink(p)
        os.mkdir(p)


def check_archive(env, archive, bead, path_box, stored):
    """the archive is the bead that was found"""
    env.check(env.all(archive.name == bead.name, archive.content_id == bead.content_id, archive.box_name == bead.box_name), 'the archive is that of the bead')
    out = env.root + '/out'
    archive.unpack_data_to(Path(out))
    same = [s for s in stored if s.content_id == bead.content_id]
    env.check(len(same) > 0, 'the bead was saved')
    env.check(Path(out + '/data').read_text() == same[0].data, 'the archive has the content of the bead')
    env.check(str(archive.location).startswith(str(path_box.directory) + '/'), 'the archive is in the box of the bead')


def result(env, boxes, stored, what, counts, copies, through, indexed, updated=False, same_box_name=False):
    """any result of a search is resolved, maybe after something has changed"""
    if copies:
        k = env.num('copied', 0, len(stored) - 1)
        to = boxes[env.num('to', 0, len(boxes) - 1)]
        target = str(to.directory) + '/' + env.pick('copy name', ['a', 'b']) + '_20200303.zip'
        shutil.copy(stored[k].path, target)
    for k in indexed:
        index(boxes[k])
    if env.flag('other run'):
        boxes = [reopened(b) for b in boxes]
    q = search(boxes) if through == 'boxes' else boxes[0].search()
    found = q.all()
    env.assume(len(found) > 0)
    bead = found[env.num('result', 0, len(found) - 1)]
    if what:
        change(env, boxes, stored, what)
        if updated:
            for k in indexed:
                index(boxes[k])
        if env.flag('another run'):
            zipopener.close_all()
            boxes = [reopened(b) for b in boxes]
    try:
        if through == 'boxes':
            archive = resolve(boxes, bead)
        else:
            archive = boxes[0].resolve(bead)
    except REFUSED:
        env.reach('refused')
        env.check(what is not None, 'an unchanged bead can be resolved')
        return
    env.reach('resolved')
    box = [b for b in boxes if b.name == bead.box_name][0]
    check_archive(env, archive, bead, box, stored)


def remember_data(env, stored):
    for k in range(len(stored)):
        out = env.root + '/data%d' % k
        ZipArchive(stored[k].path).unpack_data_to(Path(out))
        stored[k].data = Path(out + '/data').read_text()
    zipopener.close_all()


def resolving(env, counts, what=None, indexed=(), copies=False, through='boxes', updated=False, names=('a', 'b')):
    boxes, stored = boxes_of(env, counts, indexed, list(names), False)
    remember_data(env, stored)
    result(env, boxes, stored, what, counts, copies, through, indexed, updated)


def wrong_box(env, indexed=()):
    """a result of one box is never resolved from another one"""
    boxes, stored = boxes_of(env, [1, 1], indexed, ['a'], False)
    for k in indexed:
        index(boxes[k])
    boxes = [reopened(b) for b in boxes]
    bead = boxes[0].search().all()[0]
    shutil.copy(stored[0].path, boxes[1].directory)
    if env.flag('copy is indexed'):
        index(boxes[1])
    try:
        boxes[1].resolve(bead)
        env.check(False, 'a bead of another box is refused')
    except ValueError:
        env.reach('wrong box')
    try:
        resolve([boxes[1]], bead)
        env.check(False, 'a bead of an unknown box is refused')
    except LookupError:
        pass
    archive = resolve([boxes[1], boxes[0]], bead)
    env.check(env.all(archive.box_name == 'box0', archive.name == bead.name, archive.content_id == bead.content_id), 'the bead is taken from its box')
    env.check(str(archive.location).startswith(str(boxes[0].directory)), 'the archive is in its box')
