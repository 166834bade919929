"""C25 the DOT output is well-formed and draws each bead once"""
from bead_cli.web.freshness import Freshness
from bead_cli.web.sketch import Sketch
from props.weblib import dummy, spec, same_ref

# characters of names: no slash, no control characters other than line ends and tabs, no surrogates
NAME = [('\t', '\n'), ' ', ('!', '.'), ('0', '~'), ('\xa0', '\ud7ff'), ('\ue000', '\ufffd')]
COLOUR = {'PHANTOM': 'red', 'SUPERSEDED': 'grey', 'UP_TO_DATE': 'green', 'OUT_OF_DATE': 'orange'}
T = '20200101T000000%06d+0000'
BARE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789.-'


class Malformed(Exception):
    pass


# -- an independent reading of the DOT language --------------------------------
def tokens(s):
    """[(kind, text)] kind is one of the punctuation characters, 'id' or 'html'"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == ' ' or c == '\n' or c == '\t' or c == '\r':
            i += 1
        elif c == '/' and s[i:i + 2] == '//':
            while i < n and s[i] != '\n':
                i += 1
        elif c == '/' and s[i:i + 2] == '/*':
            i = s.index('*/', i) + 2
        elif c == '-' and s[i:i + 2] == '->':
            out.append(('->', '->'))
            i += 2
        elif c in '{}[];,=:':
            out.append((c, c))
            i += 1
        elif c == '"':
            i += 1
            text = []
            while True:
                if i >= n:
                    raise Malformed('string is not closed')
                d = s[i]
                if d == '"':
                    break
                if d == '\\':
                    if i + 1 >= n:
                        raise Malformed('string is not closed')
                    e = s[i + 1]
                    if e == '"':
                        text.append('"')
                    elif e == '\n':
                        pass
                    else:
                        text.append(d)
                        text.append(e)
                    i += 2
                else:
                    text.append(d)
                    i += 1
            i += 1
            out.append(('id', ''.join(text)))
        elif c == '<':
            depth = 1
            start = i + 1
            i += 1
            while depth:
                if i >= n:
                    raise Malformed('html string is not closed')
                d = s[i]
                if d == '<':
                    depth += 1
                elif d == '>':
                    depth -= 1
                i += 1
            out.append(('html', s[start:i - 1]))
        elif c in BARE:
            start = i
            while i < n and s[i] in BARE and s[i:i + 2] != '->':
                i += 1
            out.append(('id', s[start:i]))
        else:
            raise Malformed('unexpected character')
    return out


class Dot:
    def __init__(self, text):
        self.toks = tokens(text)
        self.at = 0
        self.nodes = []         # (id, attributes)
        self.edges = []         # ((id, port), (id, port), attributes)
        self.expect_word('digraph')
        if self.kind() == 'id':
            self.take()
        self.statements()
        if self.at != len(self.toks):
            raise Malformed('text after the graph')

    def kind(self, k=0):
        return self.toks[self.at + k][0] if self.at + k < len(self.toks) else 'end'

    def take(self, kind=None):
        if self.kind() == 'end' or (kind is not None and self.kind() != kind):
            raise Malformed('something else is expected')
        t = self.toks[self.at]
        self.at += 1
        return t[1]

    def expect_word(self, w):
        if self.take('id') != w:
            raise Malformed(w + ' is expected')

    def statements(self):
        self.take('{')
        while self.kind() != '}':
            if self.kind() == ';':
                self.take()
                continue
            if self.kind() == '{':
                self.statements()
                continue
            word = self.take('id')
            if self.kind() == '=':
                self.take()
                self.value()
            elif self.kind() == '[' and (word == 'edge' or word == 'node' or word == 'graph'):
                self.attributes()
            elif word == 'subgraph':
                if self.kind() == 'id':
                    self.take()
                self.statements()
            else:
                ends = [(word, self.port())]
                while self.kind() == '->':
                    self.take()
                    w = self.take('id')
                    ends.append((w, self.port()))
                attrs = self.attributes()
                if len(ends) == 1:
                    self.nodes.append((word, attrs))
                else:
                    for k in range(len(ends) - 1):
                        self.edges.append((ends[k], ends[k + 1], attrs))
        self.take('}')

    def port(self):
        p = None
        if self.kind() == ':':
            self.take()
            p = self.take('id')
            if self.kind() == ':':
                self.take()
                if self.take('id') not in ('n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'c', '_'):
                    raise Malformed('not a compass point')
        return p

    def value(self):
        if self.kind() not in ('id', 'html'):
            raise Malformed('a value is expected')
        return self.take()

    def attributes(self):
        d = []
        while self.kind() == '[':
            self.take()
            while self.kind() != ']':
                k = self.take('id')
                self.take('=')
                d.append((k, self.value()))
                if self.kind() in (',', ';'):
                    self.take()
            self.take(']')
        return d


def attr(attrs, name):
    v = None
    for k, x in attrs:
        if k == name:
            v = x
    return v


ENTITIES = (('amp', '&'), ('lt', '<'), ('gt', '>'), ('quot', '"'), ('#x27', "'"), ('#39', "'"), ('apos', "'"))


def unescaped(s, backslash):
    """text of a label: entities and (in strings) backslashes are replaced"""
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '&':
            for name, char in ENTITIES:
                if s[i + 1:i + 2 + len(name)] == name + ';':
                    out.append(char)
                    i += 2 + len(name)
                    break
            else:
                raise Malformed('not an entity')
        elif c == '\\' and backslash:
            if s[i + 1:i + 2] != '\\':
                raise Malformed('escape sequence in a label')
            out.append('\\')
            i += 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def cells(html):
    """rows of a table: [[(attributes, text)]]"""
    rows = []
    stack = []
    i = 0
    text = []
    attrs = None
    while i < len(html):
        c = html[i]
        if c == '<':
            end = html.index('>', i)
            tag = html[i + 1:end]
            i = end + 1
            if tag[0] == '/':
                if not stack or stack[-1] != tag[1:]:
                    raise Malformed('tags are not balanced')
                stack.pop()
                if tag == '/TD':
                    rows[-1].append((attrs, unescaped(''.join(text), False)))
                continue
            parts = tag.split(' ')
            stack.append(parts[0])
            if parts[0] == 'TR':
                rows.append([])
            elif parts[0] == 'TD':
                attrs = {}
                for p in parts[1:]:
                    k, v = p.split('=')
                    if v[0] != '"' or v[-1] != '"':
                        raise Malformed('attribute is not quoted')
                    attrs[k] = v[1:-1]
                text = []
        else:
            text.append(c)
            i += 1
    if stack:
        raise Malformed('tags are not balanced')
    return rows


def read(env, web):
    text = web.as_dot() if hasattr(web, 'as_dot') else web
    try:
        dot = Dot(text)
        tables = []
        for id, attrs in dot.nodes:
            label = attr(attrs, 'label')
            if label is not None and 'TABLE' in label:
                tables.append((id, cells(label)))
        labels = [attr(attrs, 'label') for a, b, attrs in dot.edges]
        labels = [None if x is None else unescaped(x, True) for x in labels]
    except Malformed as e:
        env.check(False, 'the text is well-formed', str(e))
    return dot, tables, labels


def check_drawing(env, web, text=None):
    dot, tables, labels = read(env, web if text is None else text)
    place = []          # (bead, id, in port, out port)
    names = []
    for b in web.beads:
        if not [n for n in names if n == b.name]:
            names.append(b.name)
    env.check(len(tables) == len(names), 'each cluster is drawn once')
    for k in range(len(tables)):
        for j in range(k):
            env.check(env.neg(tables[k][0] == tables[j][0]), 'distinct clusters have distinct ids')
    rows_seen = 0
    for b in web.beads:
        found = []
        for id, rows in tables:
            if rows[0][-1][1] == b.name:
                for row in rows[1:]:
                    # (the beads of a cluster are from different times)
                    if [t for a, t in row if t] == [str(b.freeze_time)]:
                        found.append((id, row, [a.get('PORT') for a, t in row]))
                places = [a.get('PORT') for row in rows[1:] for a, t in row]
                env.check(None not in places and len(places) == len(set(places)), 'rows have their own ports')
        env.check(len(found) == 1, 'each bead is one row of its cluster')
        id, row, ports = found[0]
        env.check(len(ports) == 2, 'a row has a place for inputs and one for the output')
        for a, t in row:
            env.check(a['BGCOLOR'].split(':')[0] == COLOUR[b.freshness.name], 'rows have the colour of the bead')
        place.append((b, id, ports[0], ports[1]))
    for id, rows in tables:
        rows_seen += len(rows) - 1
    env.check(rows_seen == len(web.beads), 'nothing else is drawn')
    # links: follow the edges through helper nodes
    drawn = []
    used = [False] * len(dot.edges)
    for k in range(len(dot.edges)):
        a, b, attrs = dot.edges[k]
        if a[1] is None:
            continue
        used[k] = True
        label = labels[k]
        while b[1] is None:
            nexts = [j for j in range(len(dot.edges)) if not used[j] and dot.edges[j][0] == b]
            env.check(len(nexts) == 1, 'links do not branch')
            used[nexts[0]] = True
            if labels[nexts[0]] is not None:
                label = labels[nexts[0]]
            b = dot.edges[nexts[0]][1]
        drawn.append((a, b, label))
    env.check(all(used), 'no edge is left over')
    env.check(len(drawn) == len(web.edges), 'each link is drawn once')
    for e in web.edges:
        src = [p for p in place if same_ref(env, p[0], e.src)][0]
        dest = [p for p in place if same_ref(env, p[0], e.dest)][0]
        match = [d for d in drawn if env.all(d[0][0] == src[1], d[0][1] == src[3], d[1][0] == dest[1], d[1][1] == dest[2])]
        env.check(len(match) == 1, 'a link connects the output of its source to the input of its destination')
        env.check(match[0][2] == e.label, 'a link has the name of the input')


def good_name(env, t):
    env.assume(env.neg('__' in t))
    env.assume(env.neg(env.any(t == '.', t == '..')))
    return t


def ids(env, a, b):
    """two clusters with arbitrary names"""
    x = good_name(env, env.text('x', NAME, a, a))
    y = good_name(env, env.text('y', NAME, b, b))
    env.assume(env.neg(x == y))
    env.reach('ids')
    check_drawing(env, Sketch.from_beads([dummy(x, '1a', '20200101T000000000000+0000'), dummy(y, '2b', '20200101T000000000000+0000')]))


def label(env, n, known):
    """a link with an arbitrary name"""
    x = good_name(env, env.text('x', NAME, n, n))
    i = spec(x, '1a', '20200101T000000000000+0000')
    beads = [dummy('d', '2b', '20200101T000000000000+0000', [i])]
    env.assume(env.neg(x == 'd'))
    if known:
        beads.append(dummy(x, '1a', '20200101T000000000000+0000'))
    env.reach('label')
    check_drawing(env, Sketch.from_beads(beads))


def shape(env, inputs, coloured=False, command=False, up=True, long=False):
    """any arrangement of beads and links"""
    beads = []
    # content ids are 128 hexadecimal digits, they differ at some place only
    place = env.pick('difference', [0, 40, 127]) if long else None

    def cid(c):
        return '5' * place + c + '5' * (127 - place) if long else '5' + c
    for i in range(len(inputs)):
        specs = []
        for j in range(inputs[i]):
            k = env.num('target%d%d' % (i, j), 0, i)
            if k < i:
                s = spec(beads[k].name, beads[k].content_id, beads[k].freeze_time_str)
            else:
                s = spec(env.text('missing%d%d' % (i, j), [('a', 'd')], 1, 1), cid('abcdef'[2 * i + j]), T % (50 + 10 * i + j))
            for o in specs:
                env.assume(env.neg(o.name == s.name))
            specs.append(s)
        b = dummy(env.text('name%d' % i, [('a', 'c')], 1, 1), cid(str(i)), T % (i if up else 9 - i), specs)
        if coloured:
            b.freshness = Freshness[env.pick('freshness%d' % i, ['SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE'])]
        beads.append(b)
    web = Sketch.from_beads(beads)
    env.reach('shape')
    text = None
    if command:
        web.to_file(env.root + '/web')
        x = env.cli('web', 'load', 'web', 'dot', 'out.dot', cwd=env.root)
        env.check(x.code == 0, 'the command works')
        with open(env.root + '/out.dot', encoding='utf-8') as f:
            text = f.read()
    check_drawing(env, web, text)
