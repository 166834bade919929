"""boxes and beads for the harnesses"""
import os
from pathlib import Path
from bead.box import Box
from bead.box_index import BoxIndex
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive

DOT_INDEX = '.index.sqlite'


def workspace(path, kind='kind', inputs=(), code=(), data=()):
    """a new workspace with these inputs (name, kind, content id, freeze time) and files (path, text)"""
    ws = Workspace(path)
    ws.create(kind)
    for i in inputs:
        ws.add_input(*i)
    for sub, files in (('', code), ('output', data)):
        for name, text in files:
            p = ws.directory / sub / name
            os.makedirs(p.parent, exist_ok=True)
            p.write_text(text)
    return ws


class Stored:
    """what is known about a bead when it is saved"""

    def __init__(self, path, name, kind, freeze_time, inputs):
        self.path = path
        self.name = name
        self.kind = kind
        self.freeze_time = freeze_time
        self.inputs = list(inputs)
        self.content_id = ZipArchive(path, 'x').content_id


def new_box(env, name='box', directory=None):
    d = directory or env.root + '/' + name
    os.makedirs(d)
    return Box(name, Path(d))


def save(env, box, name, freeze_time, kind='kind', inputs=(), data=None, code=None):
    """save a bead made from scratch"""
    tmp = env.root + '/' + 'making'
    n = 0
    while os.path.exists(tmp + str(n)):
        n += 1
    os.mkdir(tmp + str(n))
    ws = workspace(tmp + str(n) + '/' + name, kind, inputs, [('code', code)] if code is not None else [], [('data', data)] if data is not None else [])
    path = box.store(ws, freeze_time)
    return Stored(path, name, kind, freeze_time, inputs)


def reopened(box):
    """the same box as seen by another program run"""
    return Box(box.name, box.location)


def index(box):
    """create or update the index"""
    BoxIndex(box.directory).sync()


def same_inputs(env, bead, stored):
    """the inputs of a found bead are those declared"""
    got = list(bead.inputs)
    if len(got) != len(stored.inputs):
        return False
    conds = []
    for name, kind, cid, t in stored.inputs:
        conds.append(env.any(False, *[env.all(i.name == name, i.kind == kind, i.content_id == cid, i.freeze_time_str == t) for i in got]))
    return env.all(True, *conds)


def same_bead(env, bead, stored):
    return env.all(bead.name == stored.name, bead.content_id == stored.content_id)


def check_found(env, got, expected, what='', box_name=None):
    """exactly these beads are found"""
    for s in expected:
        hits = [b for b in got if same_bead(env, b, s)]
        env.check(len(hits) == 1, what + 'every matching bead is found once')
        b = hits[0]
        env.check(env.all(b.kind == s.kind, b.freeze_time_str == s.freeze_time, same_inputs(env, b, s)), what + 'found beads have the stored metadata')
        if box_name is not None:
            env.check(b.box_name == box_name, what + 'found beads know their box')
    env.check(len(got) == len(expected), what + 'nothing else is found')
