"""C26 hashing a file and hashing its bytes agree, in any chunking"""
import hashlib
from bead.tech import securehash


def any_bytes(env, label, lo, hi):
    return env.text(label, [('\0', '\x7f')], lo, hi).encode('ascii')


def documented(content):
    n = len(content)
    return hashlib.sha512(b'%d:' % n + content + b';%d' % n).hexdigest()


class Pieces:
    """an open file that returns its content in arbitrary pieces"""

    def __init__(self, env, content, limit=None):
        self.env = env
        self.content = content
        self.limit = limit
        self.at = 0
        self.reads = 0
        self.closed = False

    def read(self, n=-1):
        left = len(self.content) - self.at
        if left == 0:
            return b''
        most = left if n is None or n < 0 or n > left else n
        k = self.env.num('read%d' % self.reads, 1, most) if most > 1 else 1
        self.reads += 1
        piece = self.content[self.at:self.at + k]
        self.at += k
        return piece

    def readinto(self, buffer):
        piece = self.read(len(buffer))
        buffer[:len(piece)] = piece
        return len(piece)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def chunks(env, n):
    """a file read in arbitrary pieces"""
    content = any_bytes(env, 'content', n, n)
    f = Pieces(env, content)
    h = securehash.file(f, len(content))
    env.reach('chunked')
    env.check(h == securehash.bytes(content), 'the hash of the file equals the hash of its bytes')
    env.check(h == documented(content), 'the hash is that of the documented data')
    env.check(f.closed, 'the file is closed')


def blocks(env, n, block):
    """a real file read with small blocks"""
    content = any_bytes(env, 'content', n, n)
    path = env.root + '/f'
    with open(path, 'wb') as f:
        f.write(content)
    if hasattr(securehash, 'READ_BLOCK_SIZE'):
        old = securehash.READ_BLOCK_SIZE
        securehash.READ_BLOCK_SIZE = block
    try:
        h = securehash.file(open(path, 'rb'), len(content))
    finally:
        if hasattr(securehash, 'READ_BLOCK_SIZE'):
            securehash.READ_BLOCK_SIZE = old
    env.reach('file')
    env.check(h == securehash.bytes(content), 'the hash of the file equals the hash of its bytes')
    env.check(h == documented(content), 'the hash is that of the documented data')


def digits(env, a, b):
    """contents made of the characters of the frame: digits, colon, semicolon"""
    x = env.text('x', ['0;'], a, a).encode('ascii')
    y = env.text('y', ['0;'], b, b).encode('ascii')
    env.reach('two')
    env.check(env.iff(securehash.bytes(x) == securehash.bytes(y), x == y), 'different contents have different hashes')
    fx = securehash.file(Pieces(env, x), len(x))
    env.check(env.iff(fx == securehash.bytes(y), x == y), 'different contents have different hashes, file and bytes')


def big(env, size):
    """sizes around the real block size, a few of the bytes arbitrary"""
    content = any_bytes(env, 'head', 2, 2) + b'.' * (size - 4) + any_bytes(env, 'tail', 2, 2)
    path = env.root + '/f'
    with open(path, 'wb') as f:
        f.write(content)
    h = securehash.file(open(path, 'rb'), size)
    env.reach('big')
    env.check(h == securehash.bytes(content), 'the hash of the file equals the hash of its bytes')
    env.check(h == documented(content), 'the hash is that of the documented data')


def wrong_size(env, n):
    """the announced size is not the size of the content"""
    content = any_bytes(env, 'content', n, n)
    announced = env.int('announced', 0, 2 * n + 3)
    try:
        h = securehash.file(Pieces(env, content), announced)
    except Exception:
        h = None
    env.reach('announced')
    if h is None:
        env.check(announced != n, 'a file of the announced size is hashed')
    else:
        env.check(announced == n, 'a file of another size is not hashed')
