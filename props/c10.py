"""C10 picking newest, oldest, n-th or unique results respects freeze times"""
import shutil
from pathlib import Path
from bead.box import search
from props.boxlib import new_box, save, reopened, index, check_found
from props.weblib import stamp, instant


class Copy:
    def __init__(self, s):
        self.name, self.content_id, self.kind, self.freeze_time = s.name, s.content_id, s.kind, s.freeze_time


def setup(env, counts, shared, indexed, kinds):
    """boxes with these numbers of beads; shared: the first bead of the first box is in the second, too (True), there under any name, or here under another one"""
    boxes = []
    stored = []         # (box name, bead)
    for b in range(len(counts)):
        box = new_box(env, 'box%d' % b)
        for i in range(counts[b]):
            t = stamp(env, 't%d%d' % (b, i), zones=True)
            s = save(env, box, 'b%d%d' % (b, i), t, env.atom('kind%d%d' % (b, i)) if kinds is True else 'kind', data='data')
            stored.append((box.name, s))
        boxes.append(box)
    if shared:
        first = stored[0][1]
        target = boxes[0 if shared == 'here' else 1]
        copy = Copy(first)
        if shared is not True:
            copy.name = env.pick('name of the copy', ['b00', 'other'] if shared == 'there' else ['other'])
        shutil.copy(first.path, str(target.directory) + '/' + Path(first.path).name.replace('b00', copy.name))
        stored.append((target.name, copy))
    for k in indexed:
        index(boxes[k])
    return [reopened(b) for b in boxes], stored


def query(env, boxes, stored, kinds, by):
    q = search(boxes) if by == 'boxes' else boxes[0].search()
    if by != 'boxes':
        stored = [x for x in stored if x[0] == boxes[0].name]
    if kinds == 'content id':
        cid = stored[env.num('q.cid', 0, len(stored) - 1)][1].content_id
        q = q.by_content_id(cid)
        stored = [x for x in stored if x[1].content_id == cid]
    elif kinds == 'name':
        name = env.pick('q.name', ['b00', 'b10', 'other'])
        q = q.by_name(name)
        stored = [x for x in stored if x[1].name == name]
    elif kinds == 'time':
        limit = stamp(env, 'q.time', zones=True)
        how = env.pick('q.how', ['older', 'newer', 'at or older', 'at or newer'])
        at = instant(limit)
        q = {'older': q.older_than, 'newer': q.newer_than, 'at or older': q.at_or_older, 'at or newer': q.at_or_newer}[how](limit)
        left = []
        for x in stored:
            t = instant(x[1].freeze_time)
            if t < at if how == 'older' else t > at if how == 'newer' else t <= at if how == 'at or older' else t >= at:
                left.append(x)
        stored = left
    elif kinds:
        k = env.atom('q.kind')
        q = q.by_kind(k)
        stored = [x for x in stored if x[1].kind == k]
    return q, stored


def matches(env, bead, stored):
    """the stored beads that are the found one"""
    return [s for b, s in stored if env.all(bead.box_name == b, bead.name == s.name, bead.content_id == s.content_id, bead.freeze_time_str == s.freeze_time, bead.kind == s.kind)]


def attempt(f, *args):
    try:
        return f(*args)
    except LookupError:
        return None


def extremes(env, counts, shared=False, indexed=(), kinds=False, by='boxes'):
    boxes, stored = setup(env, counts, shared, indexed, kinds)
    q, stored = query(env, boxes, stored, kinds, by)
    times = [instant(s.freeze_time) for b, s in stored]
    newest, oldest, first = attempt(q.newest), attempt(q.oldest), attempt(q.first)
    for what, bead in (('newest', newest), ('oldest', oldest), ('first', first)):
        env.check((bead is None) == (not stored), what + ' finds something exactly when there is a match')
        if bead is None:
            env.reach('nothing')
            continue
        env.reach('found')
        env.check(len(matches(env, bead, stored)) == 1, what + ' is a match')
        t = instant(bead.freeze_time_str)
        if what == 'newest':
            env.check(env.all(*[t >= x for x in times]), 'there is no newer match')
        if what == 'oldest':
            env.check(env.all(*[t <= x for x in times]), 'there is no older match')


def nth(env, counts, shared=False, indexed=(), kinds=False, by='boxes'):
    boxes, stored = setup(env, counts, shared, indexed, kinds)
    q, stored = query(env, boxes, stored, kinds, by)
    n = env.num('n', 0, len(stored) + 1)
    up, down = attempt(q.newer, n), attempt(q.older, n)
    for what, bead in (('newer', up), ('older', down)):
        env.check((bead is None) == (n >= len(stored)), what + ' finds something exactly when there are enough matches')
        if bead is None:
            env.reach('nothing')
            continue
        env.reach('nth')
        env.check(len(matches(env, bead, stored)) == 1, what + ' is a match')
        t = instant(bead.freeze_time_str)
        before = 0      # matches that are strictly before it, and not after it in this order
        same = 0
        for b, s in stored:
            x = instant(s.freeze_time)
            if x == t:
                same += 1
            elif (x < t) == (what == 'newer'):
                before += 1
        env.check(before <= n < before + same, what + ' is the n-th match')
    if stored:
        env.check(instant(q.newer().freeze_time_str) == instant(q.newer(1).freeze_time_str) if len(stored) > 1 else attempt(q.newer) is None, 'the default is the next one')


def every(env, counts, shared=False, indexed=(), kinds=False, by='boxes'):
    boxes, stored = setup(env, counts, shared, indexed, kinds)
    q, stored = query(env, boxes, stored, kinds, by)
    beads = q.all()
    env.check(len(beads) == len(stored), 'all matches are returned')
    for bead in beads:
        env.check(len(matches(env, bead, stored)) == 1, 'each is a match')
    for i in range(len(beads)):
        for j in range(i):
            env.check(env.neg(env.all(beads[i].box_name == beads[j].box_name, beads[i].name == beads[j].name, beads[i].content_id == beads[j].content_id)), 'each once')
    env.reach('all')
    q2 = q.unique()
    beads = q2.all()
    for b, s in stored:
        env.check(len([x for x in beads if x.content_id == s.content_id]) == 1, 'one bead for each content id')
    for bead in beads:
        env.check(len(matches(env, bead, stored)) == 1, 'each unique one is a match')
    newest = attempt(q2.newest)
    env.check((newest is None) == (not stored), 'unique newest')
    if newest is not None:
        env.check(env.all(*[instant(newest.freeze_time_str) >= instant(s.freeze_time) for b, s in stored]), 'there is no newer unique match')
    first = attempt(q2.first)
    env.check((first is None) == (not stored), 'unique first')
    if first is not None:
        env.check(len(matches(env, first, stored)) == 1, 'unique first is a match')
