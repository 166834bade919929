"""command line flows for the harnesses"""
import os
import shutil
import stat
from pathlib import Path
from props.boxlib import new_box, save, index


def known_box(env, name, directory=None):
    """a box made known to the tool"""
    b = new_box(env, name, directory)
    x = env.cli('box', 'add', name, str(b.directory), cwd=env.root)
    env.check(x.code == 0, 'box add works')
    return b


def workspace_dir(env, name='ws', kind=None):
    """a workspace made by the tool"""
    x = env.cli('new', name, cwd=env.root)
    env.check(x.code == 0, 'new works')
    return env.root + '/' + name


def content_of(path):
    with open(path, 'rb') as f:
        return f.read()


def snapshot(env, top, skip=(), modes=True):
    """everything under a directory: (path, type, permissions, content or target), by path"""
    out = []

    def walk(d, prefix):
        for f in sorted(os.listdir(d)):
            p = d + '/' + f
            rel = prefix + f
            if rel in skip:
                continue
            st = os.lstat(p)
            mode = stat.S_IMODE(st.st_mode) if modes else 0
            if stat.S_ISLNK(st.st_mode):
                out.append((rel, 'link', 0, os.readlink(p)))
            elif stat.S_ISDIR(st.st_mode):
                out.append((rel, 'dir', mode, ''))
                walk(p, rel + '/')
            elif not stat.S_ISREG(st.st_mode):
                out.append((rel, 'special', mode, ''))
            else:
                out.append((rel, 'file', mode, content_of(p)))
    if os.path.lexists(top):
        st = os.lstat(top)
        if stat.S_ISDIR(st.st_mode):
            out.append(('', 'dir', stat.S_IMODE(st.st_mode) if modes else 0, ''))
            walk(top, '')
        else:
            out.append(('', 'other', stat.S_IMODE(st.st_mode) if modes else 0, content_of(top) if not stat.S_ISLNK(st.st_mode) else os.readlink(top)))
    return out


def files_of(env, top):
    """path to bytes of the regular files under a directory"""
    return [(rel, c) for rel, what, mode, c in snapshot(env, top) if what == 'file']


def same_files(env, a, b):
    """two lists of (path, bytes) are the same up to order"""
    if len(a) != len(b):
        return False
    conds = []
    for p, c in a:
        conds.append(env.any(False, *[env.all(p == q, c == d) for q, d in b]))
    return env.all(True, *conds)


def check_data(env, ws, nick, files, what=''):
    """the input is loaded with exactly these files"""
    d = ws + '/input/' + nick
    env.check(os.path.isdir(d), what + 'the input is loaded')
    env.check(same_files(env, files_of(env, d), files), what + 'the data is that of the bead')


def read_only(path):
    return stat.S_IMODE(os.lstat(path).st_mode) & 0o222 == 0


def owner_read_only(path):
    return stat.S_IMODE(os.lstat(path).st_mode) & 0o200 == 0


NAMES = [('\x01', '.'), ('0', '\ud7ff')]        # characters of file names: no slash, no surrogates


def named_files(env, specs, label='', alphabet=NAMES, n=1, fixed=None):
    """files with any names: (path, content)

    in a spec 'sub/A' the upper case parts are names of n characters, 'A:10' is a file of 10 bytes
    """
    names = {} if fixed is None else fixed
    out = []
    env.setenv('a', 'value')        # not to be used in names
    for k in range(len(specs)):
        parts = []
        spec, _, size = specs[k].partition(':')
        for part in spec.split('/'):
            if part.isupper():
                if part not in names:
                    name = env.text(label + part, alphabet, n, n)
                    env.assume(env.neg(env.any(name == '.', name == '..')))
                    names[part] = name
                part = names[part]
            parts.append(part)
        if size == '0':
            content = b''
        else:
            content = env.content(label + 'content%d' % k, int(size) if size else None)
        out.append(('/'.join(parts), content))
    return out


def write_files(env, top, files):
    """create the files; combinations that no directory can have are assumed not to be asked for"""
    for path, content in files:
        d = top
        for part in path.split('/')[:-1]:
            d = d + '/' + part
            env.assume(env.neg(os.path.isfile(d)))
            if not os.path.isdir(d):
                os.mkdir(d)
        env.assume(env.neg(os.path.lexists(top + '/' + path)))
        with open(top + '/' + path, 'wb') as f:
            f.write(content)


def members_of(path):
    """names and bytes of the members of an archive"""
    import zipfile
    with zipfile.ZipFile(path) as z:
        return [(i.filename, z.read(i)) for i in z.infolist()]
