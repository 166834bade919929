"""C20 the cache of open archives is transparent and bounded"""
import os
import zipfile
from pathlib import Path
from bead import zipopener


def make_zip(path, content):
    with zipfile.ZipFile(path, 'w') as z:
        z.writestr('name', content)


def is_open(handle):
    return handle.fp is not None


def sequence(env, size, steps, as_path=False):
    """any sequence of opens (of new, open, evicted, missing and damaged files) and closes"""
    d = env.root + '/z'
    os.mkdir(d)
    files = []
    contents = []
    for i in range(steps):
        p = d + '/f%d.zip' % i
        contents.append(env.atom('c%d' % i))
        make_zip(p, contents[i])
        files.append(Path(p) if as_path else p)
    env.junk_file(d + '/junk.zip')
    bad = [d + '/junk.zip', d + '/missing.zip']
    if as_path:
        bad = [Path(b) for b in bad]
    env.reset_peak()
    cache = zipopener.OpenZipLRUCache(size)
    recent = []         # open files by the reference, least recently used first
    maybe = []          # of these: may have been evicted by a failed open
    handles = {}
    seen = 0
    for step in range(steps):
        op = env.pick('op%d' % step, ['open', 'open bad', 'close', 'close all'] if recent else ['open', 'open bad'])
        if op == 'open':
            i = env.num('file%d' % step, 0, min(seen, steps - 1))
            seen = max(seen, i + 1)
            h = cache.open(files[i])
            env.check(is_open(h), 'an open handle is returned')
            env.check(str(h.filename) == str(files[i]), 'the handle is on the requested file')
            env.check(h.read('name') == contents[i].encode('utf-8'), 'the requested archive can be read')
            if i in recent:
                if i not in maybe:
                    env.check(h is handles[i], 'no second handle on an open archive')
                recent.remove(i)
                if i in maybe:
                    maybe.remove(i)
            recent.append(i)
            handles[i] = h
            # the reference evicts the least recently used ones only when there is no room
            while len(recent) > size:
                env.check(not is_open(handles[recent[0]]), 'the evicted archive is the least recently used and is closed')
                if recent[0] in maybe:
                    maybe.remove(recent[0])
                recent.pop(0)
            env.reach('opened')
        elif op == 'open bad':
            b = env.pick('bad%d' % step, bad)
            try:
                cache.open(b)
                env.check(False, 'opening a bad file fails')
            except (zipopener.BadZipFile, OSError):
                pass
            env.reach('failed')
            if len(recent) == size and not maybe:
                maybe = recent[:1]
        elif op == 'close':
            i = recent[env.num('which%d' % step, 0, len(recent) - 1)]
            if i in maybe and not is_open(handles[i]):
                pass
            else:
                cache.close(files[i])
            env.check(not is_open(handles[i]), 'a closed archive is closed')
            recent.remove(i)
            if i in maybe:
                maybe.remove(i)
            env.reach('closed')
        else:
            cache.close_all()
            for i in recent:
                env.check(not is_open(handles[i]), 'all are closed')
            recent = []
            maybe = []
            env.check(env.zips()[0] == 0, 'nothing is left open')
        for i in recent:
            if i not in maybe:
                env.check(is_open(handles[i]), 'archives in use stay open')
        n, peak = env.zips()
        env.check(peak <= size, 'not more archives are open than configured')
    cache.close_all()
    env.check(env.zips()[0] == 0, 'nothing is left open')


def shared(env, extra):
    """the cache the archives are read through: more archives than it can hold"""
    from bead.box import Box
    from bead.workspace import Workspace
    from bead.ziparchive import ZipArchive
    ws = Workspace(env.root + '/w')
    ws.create('kind')
    os.mkdir(env.root + '/box')
    box = Box('b', Path(env.root + '/box'))
    archives = []
    total = 10 + extra
    datas = []
    for i in range(total):
        data = env.atom('d%d' % i)
        datas.append(data)
        (ws.directory / 'output' / 'data').write_text(data)
        archives.append(ZipArchive(box.store(ws, '20200101T0000000%05d+0000' % i), 'b'))
    env.reset_peak()
    for k in range(2):
        i = env.num('a%d' % k, 0, total - 1)
        archives[i].validate()
        archives[i].unpack_data_to(Path(env.root + '/out%d' % k))
        env.check((Path(env.root) / ('out%d' % k) / 'data').read_text() == datas[i], 'the data is that of the archive')
    env.reach('shared')
    env.check(env.zips()[1] <= 10, 'not more archives are open than configured')
    zipopener.close_all()
    env.check(env.zips()[0] == 0, 'nothing is left open')
