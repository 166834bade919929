"""What each check explores (plain data; read by check.py and by tools/manifest.py)."""

ASSUMPTIONS = [
    'The operating system, file system, zip, json, sqlite3, re, datetime, hashlib and argparse libraries behave as the stubs in /verif/sx/stubs say; '
    'sampled path witnesses are executed natively on every run and must observe the same.',
    'sha512 is collision free (modelled as an injective function).',
]

PLAN = {}

PLAN['C13'] = dict(
    mod='c13',
    bounds='texts of 0-30 characters over printable ASCII and newline; one arbitrary BMP character inserted, replaced or removed at every position; '
           'two arbitrary well-formed timestamps',
    reach=['refused', 'accepted', 'compared'],
    quick=[('shape', dict(n=n, lo='\n', hi='~')) for n in (0, 1, 8, 15, 20, 24, 25, 27, 28, 30)]
    + [('shape', dict(n=26, lo='\n', hi='~'))] + [('fields', dict(month='%02d' % m, sign=s)) for m in range(14) for s in '+-']
    + [('edited', dict(kind=k, pos=p)) for p in range(27) for k in ('insert', 'replace', 'remove') if p < 26 or k == 'insert']
    + [('order', dict(pa=a, pb=b)) for a, b in (('2020022', '2020022'), ('2021123', '2022010'), ('20200229', '20200301'), ('00010101', '00010101'), ('9999123', '9999123'))],
)

def _ts():
    q = []
    for z, changes in (('north1h', (1616893200, 1635642000)), ('south30m', (1617462000, 1633188600)), ('west1h', (1615705200, 1636264800)), ('west330', (1615699800, 1636259400))):
        for t in changes:
            q.append(('dst_zone', dict(zone=z, lo=t - 11000, hi=t + 11000)))
            q.append(('later', dict(zone=z, at=t)))
        q.append(('saved', dict(zone=z, at=changes[0])))
        q.append(('saved', dict(zone=z, at=changes[1])))
        q.append(('dst_zone', dict(zone=z, lo=18628, hi=18992)))
    return q


PLAN['C14'] = dict(
    mod='c14',
    bounds='zones without daylight saving time with every whole minute offset below +-15 h and every microsecond of the years 2000, 2024, 2098 and 2099; four zones with one hour and half hour daylight saving time, '
           'every microsecond of 2021; pairs of timestamps within 2 h around each change of the offset',
    reach=['generated', 'two', 'saved'],
    quick=[('fixed_zone', dict(first=f, last=l, west=w)) for f, l in ((10957, 11322), (19723, 20088), (46751, 47481)) for w in (False, True)] + _ts(),
)

_FORMS = ('0000', '000000', '0000-00', '00000000', '0000-00-00', '00000000T000000z0000', '00000000T000000000000z0000', '0000-00-00T00:00:00z0000', '0000-00-00T00:00:00.000000z0000')
PLAN['C15'] = dict(
    mod='c15',
    bounds='every text of 0-6 characters over printable ASCII and newline; every digit in each of the nine ISO forms; each form with one arbitrary character of U+0000-05FF, U+2000-9FFF inserted, replaced or removed; '
           'one to two amounts of of 1-31 digits with every unit and sign, at any microsecond of 2020-02-28 and 2021-01-01 and within 2 h around an end of daylight saving time',
    reach=['iso refused', 'iso read', 'refused', 'delta read', 'amounts read', 'amounts refused'],
    quick=[('iso', dict(form=f)) for f in _FORMS[:5]] + [('iso', dict(form=f, month=m)) for f in _FORMS[5:] for m in ('02', '04', '12')]
    + [('anything', dict(n=n, alphabet=['\n~'])) for n in range(4)]
    + [('anything', dict(n=4, alphabet=['09', 'dw', '+-']))]
    + [('edited', dict(form=f, pos=p, kind=k)) for f in _FORMS for k in ('insert', 'replace', 'remove') for p in range(len(f) + (k == 'insert'))]
    + [('amounts', dict(units=u, lens=[n])) for u in ('w', 'd') for n in (1, 2, 3, 5, 8, 10, 12, 15, 31)] + [('amounts', dict(units=u, lens=[n])) for u in ('H', 'M', 'S') for n in (1, 2, 4, 13)] + [('amounts', dict(units=u, lens=[1, 2])) for u in ('wd', 'dH', 'HM', 'MS')]
    + [('amounts', dict(units=u, lens=[1, 2], zone=True)) for u in ('d', 'H')] + [('amounts', dict(units='MS', lens=[1, 2], zone=True, shard=2))],
)

PLAN['C26'] = dict(
    mod='c26',
    bounds='contents of 0-6 arbitrary 7 bit bytes cut into arbitrary pieces; real files of 0-6 bytes read by blocks of 1-4 bytes; pairs of contents of 0-4 characters over 0-9:;; any announced size of 0-2n+3 for n = 0-4; files of 1 MiB-1 to 1 MiB+2 and 2 MiB+1 with arbitrary first and last bytes',
    reach=['chunked', 'file', 'two', 'announced', 'big'],
    quick=[('chunks', dict(n=n)) for n in range(7)] + [('blocks', dict(n=n, block=b)) for n in range(7) for b in (1, 2, 3, 4)]
    + [('digits', dict(a=a, b=b)) for a in range(5) for b in range(a + 1)] + [('wrong_size', dict(n=n)) for n in range(5)]
    + [('big', dict(size=2 ** 20 + d)) for d in (-1, 0, 1, 2)] + [('big', dict(size=2 ** 21 + 1))],
    thorough=[('chunks', dict(n=n)) for n in (8, 9, 10)] + [('blocks', dict(n=n, block=b)) for n in (8, 12, 16) for b in (3, 4, 5, 8)] + [('digits', dict(a=a, b=b)) for a in (6, 8) for b in (5, 7, 8)],
)

PLAN['C20'] = dict(
    mod='c20',
    bounds='every sequence of up to 5 operations (open one of up to 5 files, a missing or a damaged file; close one; close all) with room for 1, 2 and 3 archives; '
           'any two of 11 archives read one after the other through the shared cache',
    reach=['opened', 'failed', 'closed', 'shared'],
    quick=[('sequence', dict(size=s, steps=5, shard=3)) for s in (1, 2, 3)] + [('sequence', dict(size=2, steps=4, as_path=True)), ('shared', dict(extra=1))],
    thorough=[('sequence', dict(size=s, steps=6, shard=4)) for s in (1, 2, 3, 4)] + [('shared', dict(extra=2))],
)

PLAN['C21'] = dict(
    mod='c21',
    bounds='collections of up to 3 beads with up to 3 inputs in all, every coincidence of names and content ids, one bead possibly twice at any place; freeze times from 2000 on; two boxes through the web command',
    reach=['web', 'phantom', 'duplicate', 'parts', 'deleted', 'command'],
    quick=[('links', dict(inputs=[])), ('links', dict(inputs=[0])), ('links', dict(inputs=[1])), ('links', dict(inputs=[2])), ('links', dict(inputs=[1, 1])), ('links', dict(inputs=[2, 1, 0], shard=3)), ('links', dict(inputs=[1, 1, 1], shard=3)),
           ('links', dict(inputs=[2], dup=0)), ('links', dict(inputs=[2, 1], dup=0, shard=2)), ('links', dict(inputs=[1, 1], dup=1)),
           ('parts', dict(inputs=[])), ('parts', dict(inputs=[2])), ('parts', dict(inputs=[1, 1, 0], shard=3)), ('parts', dict(inputs=[2, 0, 0], shard=3)), ('deleted', dict(inputs=[1, 1], gone=1)), ('deleted', dict(inputs=[2, 0], gone=1)),
           ('through_boxes', dict(same=True)), ('through_boxes', dict(same=False))],
    thorough=[('links', dict(inputs=[2, 2, 0], shard=4)), ('links', dict(inputs=[1, 1, 1], dup=1, shard=4)), ('links', dict(inputs=[3, 1], shard=4)), ('parts', dict(inputs=[1, 1, 1], shard=4)), ('parts', dict(inputs=[2, 1], shard=4)), ('deleted', dict(inputs=[1, 1, 1], gone=1, shard=4))],
)

PLAN['C22'] = dict(
    mod='c22',
    bounds='webs of up to 4 beads and 3 inputs (or 3 beads and 3 inputs, some of them missing) arranged in any way into clusters, filtered by up to 2 sources and 2 sinks, existing or not',
    reach=['sources', 'sinks', 'command'],
    quick=[(f, dict(inputs=i, n=n, shard=s)) for f in ('sources', 'sinks') for i, n, s in (([], 1, 0), ([0], 1, 0), ([0, 1], 1, 0), ([0, 1, 1], 2, 0), ([0, 1, 1, 1], 1, 0), ([0, 0, 2, 1], 1, 0), ([0, 1, 1, 1], 2, 2))]
    + [(f, dict(inputs=i, n=n, phantoms=True, shard=s)) for f in ('sources', 'sinks') for i, n, s in (([1], 1, 0), ([1, 1], 1, 0), ([0, 1, 1], 1, 2))]
    + [('command', dict(inputs=[0, 1, 1], n_sources=a, n_sinks=b)) for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1))] + [('command', dict(inputs=[0, 1, 1, 1], n_sources=1, n_sinks=1, shard=2))],
    thorough=[(f, dict(inputs=[0, 1, 1, 1, 1], n=1, shard=3)) for f in ('sources', 'sinks')] + [('sources', dict(inputs=[0, 1, 2, 2], n=2, shard=4)), ('sinks', dict(inputs=[0, 1, 2, 2], n=2, shard=4)), ('command', dict(inputs=[0, 1, 2, 1], n_sources=2, n_sinks=2, shard=4)), ('command', dict(inputs=[1, 1, 1], n_sources=1, n_sinks=1, phantoms=True, shard=3))],
)

PLAN['C23'] = dict(
    mod='c23',
    bounds='acyclic webs of up to 4 beads and 3 inputs, or 3 beads, 3 inputs and a missing one, in any arrangement into clusters, any order in time (no two beads of a cluster at the same time), '
           'two time zones, any order of beads and inputs for up to 3 beads, all initial colours',
    reach=['coloured', 'fresh', 'old', 'phantom', 'command'],
    quick=[('colours', dict(inputs=i, phantoms=p, shard=s)) for i, p, s in (([], 0, 0), ([0], 0, 0), ([1], 1, 0), ([0, 1], 0, 0), ([0, 0, 1, 1], 0, 3), ([0, 1, 1, 1], 0, 3), ([0, 1, 2], 1, 2), ([1, 1], 2, 2))]
    + [('colours', dict(inputs=i, zones=True, phantoms=p, shard=s)) for i, p, s in (([0, 0], 0, 0), ([0, 0, 1], 0, 2), ([0, 1], 1, 0))]
    + [('colours', dict(inputs=i, order=True, phantoms=p, shard=2)) for i, p in (([0, 1, 1], 0), ([0, 0, 2], 0), ([0, 1], 1))]
    + [('colours', dict(inputs=[0, 0, 1], before=b)) for b in ('SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE')]
    + [('command', dict(inputs=[0, 1], phantoms=1)), ('command', dict(inputs=[0, 1, 1], shard=1))],
    thorough=[('colours', dict(inputs=[0, 1, 2, 2], shard=5)), ('colours', dict(inputs=[0, 1, 1, 1], phantoms=1, shard=5)), ('colours', dict(inputs=[0, 1, 2], phantoms=1, order=True, shard=5)), ('colours', dict(inputs=[0, 0, 1, 1], zones=True, shard=5)), ('command', dict(inputs=[0, 1, 2], phantoms=1, shard=4))],
)

_FIELDS = ('name', 'content_id', 'kind', 'box', 'input', 'input_kind', 'input_cid')
PLAN['C24'] = dict(
    mod='c24',
    bounds='every text of 0-4 characters of Unicode in each field; webs of up to 3 beads and 3 inputs with every coincidence of names and ids, every freshness, freeze time to the microsecond',
    reach=['characters', 'arrangement'],
    quick=[('characters', dict(field=f, n=n)) for f in _FIELDS for n in (0, 1, 2, 4) if n or f not in ('name', 'input')]
    + [('arrangement', dict(inputs=i)) for i in ([], [0], [1], [0, 1])] + [('arrangement', dict(inputs=[0, 0, 0], shard=3)), ('arrangement', dict(inputs=[0, 1, 1], freshness=False, shard=3)), ('arrangement', dict(inputs=[2, 0], freshness=False, shard=3))]
    + [('arrangement', dict(inputs=[1], command=True)), ('arrangement', dict(inputs=[0, 1], command=True, shard=3))],
    thorough=[('arrangement', dict(inputs=[1, 2], shard=4)), ('arrangement', dict(inputs=[0, 1, 2], freshness=False, shard=4)), ('arrangement', dict(inputs=[1, 1], command=True, shard=4))] + [('characters', dict(field=f, n=12)) for f in _FIELDS],
)

PLAN['C25'] = dict(
    mod='c25',
    bounds='two clusters with arbitrary names of up to 3 characters in all, links with arbitrary names of up to 2 characters (no control characters other than tab and line feed, which XML does not allow); webs of up to 3 beads and 2 inputs in any arrangement and colours; content ids of 128 digits differing in the first, the 41st or the last one',
    reach=['ids', 'label', 'shape'],
    quick=[('ids', dict(a=1, b=1)), ('ids', dict(a=2, b=1, shard=3))] + [('label', dict(n=n, known=k)) for n in (1, 2) for k in (True, False)]
    + [('shape', dict(inputs=i, shard=s, up=u)) for i, s, u in (([], 0, True), ([0], 0, True), ([1], 0, True), ([0, 1], 0, True), ([0, 0], 0, False), ([0, 1, 1], 3, True), ([0, 0, 2], 3, False))] + [('shape', dict(inputs=[0, 1], coloured=True, command=True, shard=2)), ('shape', dict(inputs=[1], long=True)), ('shape', dict(inputs=[0, 0], long=True))],
    thorough=[('ids', dict(a=2, b=2, shard=5)), ('ids', dict(a=3, b=1, shard=5)), ('label', dict(n=3, known=True, shard=3)), ('shape', dict(inputs=[0, 1, 2], shard=5)), ('shape', dict(inputs=[0, 0, 1], coloured=True, shard=5))],
)

PLAN['C32'] = dict(
    mod='c32',
    bounds='every graph of up to 4 links; webs of up to 3 beads and 3 inputs (any bead or a missing one) with the final sink; cycles of up to 4 heads; clusters of up to 4 versions given in any order, real or phantom, in any order in time (no two of a cluster at the same time), from 2000 on',
    reach=['cycle', 'order', 'coloured', 'heads'],
    quick=[('any_graph', dict(m=m)) for m in range(4)] + [('any_graph', dict(m=4, shard=4))] + [('web_order', dict(inputs=i, shard=s)) for i, s in (([], 0), ([0, 0], 0), ([1, 1], 0), ([0, 2], 0), ([1, 1, 1], 3))]
    + [('coloured_cycle', dict(n=n)) for n in (1, 2, 3, 4)] + [('heads', dict(n=n, phantoms=p, shard=s)) for n, p, s in ((1, True, 0), (2, True, 0), (3, True, 0), (4, False, 3))] + [('heads', dict(n=2, phantoms=True, zones=True)), ('heads', dict(n=3, phantoms=False, zones=True))],
    thorough=[('any_graph', dict(m=5, shard=7)), ('web_order', dict(inputs=[1, 2, 1], shard=5)), ('heads', dict(n=4, phantoms=True, shard=5)), ('heads', dict(n=3, phantoms=True, zones=True, shard=3))],
)

_TIMES = ('at_time', 'newer_than', 'older_than', 'at_or_newer', 'at_or_older')
PLAN['C09'] = dict(
    mod='c09',
    bounds='2 beads (3 for one condition in the thorough tier) with any names of 1-2 characters out of a, b, kinds, inputs, freeze times with any last digit of the microseconds in two zones (one bead: any microseconds, in 2005 and at the end of 2019); up to 3 conditions, '
           'with any values; without index, indexed later, indexed from the start; archive files renamed to 5 forms',
    reach=['raw', 'after', 'before', 'both', 'renamed'],
    quick=[('one_box', dict(n=2, conds=['name'], how=h, short_names=False)) for h in ('raw', 'after', 'before')]
    + [('one_box', dict(n=2, conds=[t], how=h, as_datetime=d)) for t in _TIMES for h, d in (('raw', True), ('after', False), ('before', True), ('raw', False))]
    + [('one_box', dict(n=1, conds=[t], how=h, digits=6, base=b)) for t in _TIMES for h, b in (('after', '20050101T000000'), ('raw', '20050101T000000'), ('before', '20191231T233000'))]
    + [('one_box', dict(n=2, conds=[c], how=h)) for c in ('kind', 'cid') for h in ('raw', 'after', 'before', 'same')]
    + [('one_box', dict(n=2, conds=[], how=h, inputs=2)) for h in ('raw', 'after', 'before', 'same')]
    + [('one_box', dict(n=2, conds=c, how=h)) for c, h in ((['kind', 'newer_than'], 'before'), (['name', 'kind'], 'after'), (['at_or_newer', 'older_than'], 'after'), (['at_or_newer', 'at_or_older'], 'raw'), (['name', 'name'], 'raw'), (['name', 'name'], 'after'), (['kind', 'cid'], 'raw'))]
    + [('both_ways', dict(n=2, conds=c)) for c in (['name', 'at_or_older'], ['kind', 'newer_than'], ['cid', 'at_time'])] + [('renamed', dict(how=h, shard=2)) for h in ('raw', 'after')],
    thorough=[('one_box', dict(n=3, conds=[t], how=h, shard=3)) for t in _TIMES for h in ('raw', 'after')] + [('one_box', dict(n=3, conds=['name'], how=h, short_names=False, shard=4)) for h in ('raw', 'after')]
    + [('both_ways', dict(n=3, conds=['name', 'kind', 'newer_than'], shard=4))],
)

PLAN['C10'] = dict(
    mod='c10',
    bounds='1-3 boxes with up to 3 beads in all, freeze times with any last digit of the microseconds (ties included) in two zones, any kinds, one bead possibly in two boxes or twice under two names, boxes with and without index; all of them, those of a kind, a content id or a name, or before or after a time; n from 0 to one more than the matches',
    reach=['found', 'nothing', 'nth', 'all'],
    quick=[(f, dict(counts=c, **k)) for f in ('extremes', 'every') for c, k in (([0], {}), ([1], dict(kinds=True)), ([2, 1], dict(shard=1)), ([1, 1], dict(shared=True, kinds=True)), ([1, 1], dict(shared=True, indexed=[1])), ([1, 0, 1], dict(indexed=[0])), ([1, 1], dict(shared='there', indexed=[0])), ([1], dict(shared='here')), ([2], dict(shared='here', by='box', indexed=[0])), ([2], dict(by='box', kinds=True)), ([1, 2], dict(indexed=[0, 1], shard=1)))]
    + [(f, dict(counts=c, kinds=q, **k)) for f in ('extremes', 'every', 'nth') for q in ('content id', 'name', 'time') for c, k in (([1, 1], dict(shared='there', indexed=[1])), ([1, 0, 1], dict(shared='there')))]
    + [('nth', dict(counts=c, **k)) for c, k in (([0], {}), ([2], dict(kinds=True)), ([2, 1], dict(shard=3)), ([1, 1], dict(shared=True)), ([1, 1], dict(indexed=[0, 1])), ([2], dict(by='box', indexed=[0])))],
    thorough=[('extremes', dict(counts=[2, 2], shard=4)), ('every', dict(counts=[2, 1], kinds=True, shared=True, shard=3)), ('nth', dict(counts=[2, 1], shared=True, shard=5)), ('nth', dict(counts=[3], by='box', indexed=[0], shard=4)), ('extremes', dict(counts=[2, 1], shared=True, kinds=True, indexed=[0], shard=4))],
)

PLAN['C07'] = dict(
    mod='c07',
    bounds='a box with two beads, with no index, indexed before the foreign file appears (and possibly updated after), after it, or the foreign file alone first; one foreign file: 10 kinds of non archives under 5 names; '
           '46 kinds of missing or malformed metadata; damaged metadata or manifest; metadata whose freeze time has one arbitrary character U+0000-D7FF at any place; sound archives under every file name of 1-3 of the characters _ . a [; every search condition',
    reach=['raw', 'after', 'before', 'first', 'impossible name'],
    quick=[('foreign', dict(how=h)) for h in ('raw', 'after', 'before', 'first')]
    + [('malformed', dict(how=h, part=p)) for h in ('raw', 'after', 'before') for p in ('text', 'keys', 'values', 'manifest', 'nothing', 'else')]
    + [('damaged_member', dict(how=h, member=m)) for h in ('raw', 'after', 'before') for m in ('meta/bead', 'meta/manifest')]
    + [('odd_time', dict(how='raw', pos=p)) for p in range(27)] + [('odd_time', dict(how='after', pos=p)) for p in (0, 8, 20, 25, 26)]
    + [('odd_name', dict(how=h, n=n)) for h in ('raw', 'after') for n in (1, 2, 3)],
    thorough=[('odd_time', dict(how=h, pos=p)) for h in ('after', 'before') for p in range(27)] + [('odd_name', dict(how=h, n=4, shard=2)) for h in ('raw', 'before')],
)

PLAN['C08'] = dict(
    mod='c08',
    bounds='every name of 1-2 characters of U+0001-D7FF, E000-FFFF without slash, and of 3 of the characters _ . space 0 a T; the same with a date-like end or beginning; looked up by any other name of 1-2 characters; '
           'two beads with names of 1-2 characters each (or one continuing the other); no index, indexed before or after; through new, save and edit, with the directory renamed between',
    reach=['accepted', 'refused', 'pair', 'saved', 'new refused', 'save refused'],
    quick=[('one', dict(n=1, how=h)) for h in ('raw', 'after', 'before')] + [('one', dict(n=2, shard=1)), ('one', dict(n=3, alphabet=['_', '.', ' ', '0', 'a', 'T'], shard=3))]
    + [('one', dict(n=1, pre=p, post=q, how=h)) for p, q, h in (('a_2020010', '', 'raw'), ('a_2020010', 'T', 'after'), ('', '_20200101', 'raw'), ('a_20200101', '', 'raw'), ('a', '.zip', 'raw'), ('a_20200101T0000', '+00', 'before'))]
    + [('one', dict(n=1, pre='a', post='b', how='raw', m=0)), ('one', dict(n=1, pre='', post='b', how='after', m=0))]
    + [('pair', dict(a=a, b=b, alphabet=['az', 'AZ', '_', '.', '09'], tail=t, how=h)) for a, b, t, h in ((1, 1, '', 'raw'), (1, 1, '_', 'raw'), (1, 1, '_', 'after'), (1, 1, '.', 'before'), (1, 2, '', 'after'))]
    + [('pair', dict(a=1, b=1, alphabet=['az'], tail='_2020010', how='raw'))]
    + [('command', dict(n=n, alphabet=a, pre=p, post=q, rename=r)) for n, a, p, q, r in ((1, [['\x01', '.'], ['0', '\ud7ff']], '', '', False), (1, ['az', '_', ':', '\\', '.'], 'a', '', False), (2, ['a', '_', ':', '\\', '.', '0'], '', '', False), (1, ['az', '_'], 'a', 'b', True), (1, ['09', 'a', '_'], 'a_2020010', '', False), (1, ['09', 'a', '_'], 'a_2020010', '', True), (2, ['a', '_'], '', '', True))],
    thorough=[('one', dict(n=2, how=h, shard=2)) for h in ('after', 'before')] + [('one', dict(n=4, alphabet=['_', '.', '0', 'a'], shard=4)), ('pair', dict(a=2, b=2, alphabet=['a', '_', '.', '0'], how='after', shard=3))],
)

PLAN['C11'] = dict(
    mod='c11',
    bounds='1-2 boxes with up to 2 beads in all (3 in the thorough tier), of one or two names, any kinds and data, one archive possibly copied within or between boxes under any of 2 names; each result of a search for all resolved at once, or after one archive was renamed (to 12 names), replaced by another one or by a new one of the same name, any kind and the same or another time, '
           'swapped, removed, or became junk or a directory; in the same or another program run; no index, stale index, updated index',
    reach=['resolved', 'refused', 'wrong box'],
    quick=[('resolving', dict(counts=c, copies=k, indexed=i, through=t)) for c, k, i, t in (([2], False, [], 'box'), ([1, 1], True, [], 'boxes'), ([1, 1], True, [0], 'boxes'), ([1], True, [0], 'box'))]
    + [('resolving', dict(counts=[2], what=w, indexed=i, updated=u)) for w in ('swap', 'replace', 'delete', 'junk', 'directory') for i, u in (([], False), ([0], False), ([0], True))]
    + [('resolving', dict(counts=c, what='remake', indexed=i, through=t)) for c, i, t in (([2], [], 'box'), ([2], [0], 'boxes'), ([1, 1], [1], 'boxes'), ([1], [], 'boxes'))]
    + [('resolving', dict(counts=[2], what='rename', indexed=i, updated=u, shard=2)) for i, u in (([], False), ([0], False))]
    + [('resolving', dict(counts=[1, 1], what=w, indexed=i, through=t)) for w in ('swap', 'replace', 'delete') for i, t in (([], 'boxes'), ([0, 1], 'box'), ([1], 'boxes'))]
    + [('resolving', dict(counts=[1, 1], names=['a'], what='delete', copies=True, indexed=i)) for i in ([], [0])]
    + [('wrong_box', dict(indexed=i)) for i in ([], [0], [1], [0, 1])],
    thorough=[('resolving', dict(counts=[2, 1], what=w, indexed=i, shard=4)) for w in ('swap', 'replace', 'delete') for i in ([], [0])]
    + [('resolving', dict(counts=[1, 1], what='rename', copies=True, indexed=i, shard=4)) for i in ([], [0])] + [('resolving', dict(counts=[2], what='rename', indexed=[0], updated=True, shard=4)), ('resolving', dict(counts=[2, 1], copies=True, shard=4))],
)

PLAN['C12'] = dict(
    mod='c12',
    bounds='every history of up to 3 saves, copies, removals, renames and index updates or rebuilds with 2 beads (2 steps with 3) having up to 2 inputs, with the same name or not, then a last update; indexed from the start or later; '
           'boxes in directories of every name of 1 character U+0001-D7FF without slash, 2 of the characters ? # % 2 5 space; four kinds of invalid archives; two boxes through the index and reindex commands',
    reach=['history', 'saved', 'copied', 'deleted', 'renamed', 'any place', 'command', 'foreign'],
    quick=[('history', dict(steps=3, names=n, inputs=i, first=f, how=h, keep=k)) for n, i, f, h, k in ((['a', 'a'], [1, 0], 'index', 'index', True), (['a', 'ab'], [1, 2], 'index', 'rebuild', True), (['a', 'ab'], [2, 1], None, 'index', False))]
    + [('history', dict(steps=2, how=h)) for h in ('index', 'any')]
    + [('any_place', dict(n=1, alphabet=[['\x01', '.'], ['0', '\ud7ff']], pre=p, command=c, rebuild=r, shard=1)) for p, c, r in (('', False, False), ('a', True, False), ('', False, True))] + [('any_place', dict(n=2, alphabet=['?', '#', '%', '2', '5', ' '], rebuild=r, command=c)) for r, c in ((False, False), (True, True))]
    + [('commands', dict(arg=a)) for a in ('all', '--box', '--dir')] + [('foreign', {})],
    thorough=[('history', dict(steps=4, names=['a', 'a'], inputs=[1, 0], first=f, how='any', shard=4)) for f in ('index', None)] + [('history', dict(steps=3, how='any', shard=3)), ('history', dict(steps=5, names=['a', 'ab'], inputs=[1, 0], how='index', keep=True, shard=5))],
)

_STATES = ['bead', 'empty', 'missing', 'wrong', 'damaged', 'junk', 'stale', 'indexed']
PLAN['C33'] = dict(
    mod='c33',
    bounds='one box in any of 15 states, two boxes in any of 8 states each, three boxes in any of 5 (with the bead, indexed or not, damaged copies, another version, stale index, foreign files, no directory, a file instead of the directory, empty); 3 versions for update, next and previous in two boxes; any data and kinds',
    reach=['loaded', 'not loaded', 'shown', 'missing', 'updated', 'not updated'],
    quick=[('loading', dict(n=1, states=['bead', 'indexed', 'bead and others', 'both', 'stale copy', 'damaged', 'stale', 'replaced', 'wrong', 'wrong indexed', 'junk', 'missing', 'file', 'empty', 'empty indexed'])),
           ('loading', dict(n=2, states=_STATES, shard=1)), ('loading', dict(n=3, states=['bead', 'damaged', 'stale', 'empty', 'missing'], shard=2)),
           ('status', dict(n=1, states=['bead', 'indexed', 'bead and others', 'wrong', 'wrong indexed', 'junk', 'missing', 'file', 'empty', 'empty indexed'])), ('status', dict(n=2, states=['bead', 'indexed', 'bead and others', 'wrong', 'missing', 'empty', 'junk'], verbose=True)),
           ('status', dict(n=3, states=['bead', 'indexed', 'missing', 'empty'])),
           ('updating', dict(n=2, states=['bead', 'indexed', 'bead and others', 'wrong', 'missing', 'empty'], shard=3))] + [('updating', dict(n=2, states=['bead', 'indexed', 'junk', 'missing'], offset=o, shard=1)) for o in ('--next', '--prev')],
    thorough=[('loading', dict(n=3, states=_STATES + ['both', 'replaced'], shard=4)), ('updating', dict(n=3, states=['bead', 'indexed', 'wrong', 'missing', 'empty'], shard=5)), ('status', dict(n=3, states=_STATES[:4] + ['indexed', 'bead and others', 'junk'], shard=2))],
)

BIG = ':2109497'      # more than two blocks of reading

# names that some software gives a meaning
ODD = ['$a/x', '~', '%s{a}', '*', ' a ', 'b\nb', '-a', '"a"', '..a', 'a\\a', '.zip', 'con', '#a', "a'; a", '.git/x', 'x.tmp', '__pycache__/x.pyc', 'a~']

PLAN['C01'] = dict(
    mod='c01',
    bounds='workspaces with up to 3 files with any contents in the code, under output, or elsewhere, in directories up to 3 deep, all with any names of 1-2 characters (up to two files: 4, 7 or 11 characters) of U+0001-D7FF without slash, or names that some software gives a meaning, listed in two orders, empty files and files of more than two blocks; up to 2 inputs with any ids, in boxes with and without index; '
           'files changed at any second of the years 1970-2128; files and directories called as the directories of a workspace or of an archive at depth 1-3; the save command from 5 directories, at any microsecond of a second, with loaded inputs and three compressions',
    reach=['saved', 'code', 'data', 'neither', 'command', 'ordinary date', 'odd date'],
    quick=[('capture', dict(code=c, data=d, other=o, n=n, inputs=i, empty=e, shard=s)) for c, d, o, n, i, e, s in (
        ([], [], [], 1, 0, False, 0), (['A'], ['B'], [], 1, 0, True, 0), (['A/B', 'C'], [], [], 1, 1, False, 2), (['d/A'], ['A/B', 'C'], [], 1, 0, True, 0), (['A'], [], ['temp/A', 'input/A/B', '.bead-meta/A'], 2, 0, False, 0),
        (['A', 'B'], ['A/B/C'], [], 2, 2, False, 2), (['A/x', 'B/x'], ['A', 'x'], [], 1, 0, False, 2), (['A/input/B'], ['temp/A'], ['input/x/A'], 1, 1, False, 0), (['A'], ['A'], ['temp/A'], 2, 0, False, 0))]
    + [('capture', dict(code=c, data=d, n=n)) for n in (4, 7, 11) for c, d in ((['A'], ['B']), (['A/x'], []), (['d/A'], ['e/B:0']), (['A:0'], ['B/x']))]
    + [('capture', dict(code=c, data=d)) for c, d in ((['A' + BIG], ['B' + BIG]), (['d/A:0', 'A/B' + BIG], []), (['A'], ['A/B:0', 'C:0']))]
    + [('capture', dict(code=ODD, data=['A'])), ('capture', dict(code=['A'], data=ODD))]
    + [('special_names', dict(where=w, depth=d)) for w in ('code', 'data') for d in (1, 2, 3)]
    + [('command', {}), ('command', dict(compression='off', loaded=True)), ('command', dict(compression='deflated'))]
    + [('dated', {}), ('dated', dict(indexed=True))],
    thorough=[('capture', dict(code=c, data=d, n=n, inputs=i, shard=5)) for c, d, n, i in ((['A/B', 'C/D', 'E'], ['A'], 1, 1), (['A', 'B', 'C'], ['A', 'B'], 2, 0), (['A/B/C', 'A/D'], ['E/B', 'C'], 1, 0))],
)

PLAN['C02'] = dict(
    mod='c02',
    bounds='beads with up to 3 code and data files with any contents, in directories up to 3 deep, with any names of 1-2 characters (up to two files: 4 to 11 characters) of U+0001-D7FF without slash, or names that some software gives a meaning, listed in two orders, empty files and files of more than two blocks; up to 2 inputs with any ids; edited by name or by file, with and without review, into a given, nested or derived directory; box with and without index; '
           'data of up to 3 files loaded by input add (name, file), load and update',
    reach=['edited', 'again', 'loaded'],
    quick=[('edit', dict(code=c, data=d, n=n, inputs=i, review=r, how=h, indexed=x)) for c, d, n, i, r, h, x in (
        ([], [], 1, 0, False, 'name', False), ([], [], 1, 0, True, 'name', False), (['A'], ['B'], 1, 0, False, 'name', True), (['A'], ['B'], 1, 1, True, 'name', False), (['A/B', 'C'], [], 1, 1, False, 'file', False), (['A/input/x'], ['input/A', 'output/B'], 1, 0, True, 'file', False),
        (['A', 'd/B'], ['A/B/C'], 2, 2, True, 'sub', False), (['A'], ['A', 'B'], 1, 2, True, 'sub', True), (['.bead-metA/x', 'x/.bead-meta/bead'], ['.bead-meta/bead'], 1, 1, True, 'name', False))]
    + [('edit', dict(code=['A'], data=['B/x'], n=n, inputs=0, review=True, how='name', indexed=False)) for n in (4, 7, 10)]
    + [('edit', dict(code=['d/A'], data=['B'], n=n, inputs=0, review=True, how='file', indexed=False)) for n in (5, 9, 11)]
    + [('edit', dict(code=c, data=d, n=1, inputs=0, review=True, how='name', indexed=False)) for c, d in ((['A' + BIG, 'd/B:0'], ['A' + BIG]), (['A'], ['A:0', 'B' + BIG]))]
    + [('load', dict(data=d, n=n, code=[], how=h, indexed=False)) for h, d, n in (('add', ['A:0', 'B' + BIG], 1), ('load', ['A'], 4), ('update', ['A/x'], 9), ('load', ['d/A'], 10), ('file', ['A' + BIG], 7))]
    + [('edit', dict(code=ODD, data=ODD, review=True)), ('load', dict(data=ODD, how='add', code=[]))]
    + [('again', dict(code=c, data=d, n=n)) for c, d, n in ((['A', 'B/C'], ['A'], 1), (['A'], ['A', 'B/x'], 2), ([], [], 1))]
    + [('load', dict(data=d, n=n, code=c, how=h, indexed=x)) for h in ('add', 'file', 'load', 'update') for d, n, c, x in (([], 1, [], False), (['A', 'B/C'], 1, ['A'], False), (['A/B/C', 'D/B', 'x'], 1, [], True))],
    thorough=[('edit', dict(code=['A/B', 'C', 'D/E'], data=['A', 'B/C'], n=1, inputs=2, review=r, how='name', shard=4)) for r in (True, False)] + [('again', dict(code=['A/B', 'C', 'D'], data=['A', 'B'], n=2, shard=4))] + [('load', dict(data=['A/B', 'C/D', 'E'], n=2, how=h, shard=2)) for h in ('add', 'load')],
)

PLAN['C05'] = dict(
    mod='c05',
    bounds='beads with up to 3 files of any contents and any names of 1-2 characters (up to two files: 4 or 10 characters) of U+0001-D7FF without slash, empty files and files of more than two blocks, up to 2 inputs, any kind and freeze time: saved in another place, order, zone, time, with other compression or comment, with and without index, with temporary and loaded files, other permissions and dates of files; '
           'pairs of such beads with up to 2 files and 2 inputs, and two names, two zones; pairs of two files of 0-2 characters each',
    reach=['same', 'two', 'moved', 'contents'],
    quick=[('same', dict(code=['A', 'd/B'], data=['C'], inputs=2, what=w)) for w in ('place', 'order', 'zone', 'compression', 'index', 'temporary', 'modes', 'comment', 'file name', 'dates')]
    + [('same', dict(code=['A/B', 'A/C'], data=['A', 'B/C'], n=2, inputs=1, what='order', shard=2))]
    + [('same', dict(code=['A' + BIG, 'd/B:0'], data=['C' + BIG], what=w, inputs=0)) for w in ('place', 'compression')] + [('same', dict(code=['A'], data=['d/B'], n=n, inputs=0, what='order')) for n in (4, 10)]
    + [('different', dict(code=c, data=d, inputs=0)) for c, d in ((['A' + BIG], []), ([], ['A' + BIG]), (['d/A:0'], ['B:0']))]
    + [('different', dict(code=c, data=d, inputs=0, n=n)) for c, d, n in ((['A'], [], 4), ([], ['A/x'], 10))]
    + [('different', dict(code=c, data=d, inputs=i, names=n, shard=s)) for c, d, i, n, s in ((['A'], [], 0, None, 0), (['A'], ['A'], 0, ['a', 'b'], 2), ([], ['A/B'], 1, None, 0), (['A', 'B'], [], 0, None, 3), ([], [], 2, ['a', 'ab'], 2), (['x'], ['A/B', 'C'], 0, None, 0))]
    + [('moved', dict(how=h)) for h in ('code or data', 'split', 'both', 'nothing', 'empty')] + [('contents', dict(n=n)) for n in (1, 2)],
    thorough=[('different', dict(code=['A', 'B'], data=[], names=['a', 'b'], inputs=2, shard=5)), ('different', dict(code=['A', 'B/A'], data=['A'], inputs=1, shard=5)), ('contents', dict(n=3, shard=3)), ('same', dict(code=['A/B', 'C', 'D'], data=['A', 'B/C'], n=2, inputs=2, what='order', shard=3))],
)

_C03_META = ('kind', 'freeze_time', 'freeze_name', 'meta_version', 'inputs.in0.kind', 'inputs.in0.content_id', 'inputs.in0.freeze_time', 'inputs.new input', 'inputs.no', 'inputs.renamed', 'other')
_C03_HOW = ('add', 'remove', 'rename', 'change', 'append', 'swap', 'form')
PLAN['C03'] = dict(
    mod='c03',
    bounds='saved beads with up to 3 files of any contents and any names of 1-2 characters (up to two files: 4 to 11 characters) of U+0001-D7FF without slash, empty files and files of more than two blocks, and one input: one member added, removed, renamed (any new name of 1-2 characters, other spellings of the same path), changed in any way or swapped with another one, or not readable; '
           'each value of the metadata changed; an entry of the manifest added, removed or changed, other formatting of the manifest',
    reach=['valid', 'tampered', 'damaged', 'metadata', 'manifest'],
    quick=[('untampered', dict(code=['A'], data=['B/C'])), ('untampered', dict(code=['A', 'B'], data=[], inputs=0)), ('untampered', dict(code=[], data=[], inputs=2))]
    + [('tampered', dict(code=['A'], data=['B/C'], how=h)) for h in _C03_HOW]
    + [('tampered', dict(code=['A/B'], data=['A'], how=h, n=2, inputs=0)) for h in ('add', 'rename', 'form')]
    + [('tampered', dict(code=['A'], data=['B/x'], how=h, n=n, inputs=0)) for h in ('remove', 'change') for n in (4, 7, 11)]
    + [('tampered', dict(code=['d/A'], data=['B'], how=h, n=9, inputs=0)) for h in ('add', 'rename')]
    + [('tampered', dict(code=['A' + BIG], data=['B' + BIG, 'C:0'], how=h, inputs=0)) for h in ('change', 'append', 'swap')]
    + [('damaged', dict(code=['A'], data=['B/C']))]
    + [('meta_changed', dict(key=k)) for k in _C03_META]
    + [('with_manifest', dict(code=['A'], data=['B/C'], how=h)) for h in ('remove', 'add', 'hash', 'form')],
    thorough=[('tampered', dict(code=['A', 'B'], data=['C', 'A/B'], how=h, inputs=2, n=2, shard=3)) for h in _C03_HOW]
    + [('with_manifest', dict(code=['A', 'B'], data=['A', 'B/C'], how=h)) for h in ('remove', 'add', 'hash', 'form')],
)

_ANY = [('\x01', '\ud7ff')]
PLAN['C04'] = dict(
    mod='c04',
    bounds='valid archives with one or two members: code/ or data/ followed by nothing, ../, the name of the destination or of an input beside it, an absolute path in three spellings, or two parent references in the middle, '
           'followed by any 0-5 characters of U+0001-D7FF (slashes and dots included); edited, reviewed, added, updated and unpacked directly',
    reach=['edited', 'refused', 'loaded', 'not loaded', 'extracted', 'not extracted'],
    quick=[('direct', dict(part=p, prefix=x, alphabet=_ANY, lo=0, hi=5)) for p, x in (('code', ''), ('data', ''), ('data', '../'), ('code', '../dest'), ('data', 'a/../../'))]
    + [('direct', dict(part=p, prefix=x, alphabet=_ANY, lo=0, hi=3)) for p, x in (('code', 'root'), ('data', 'slash root'), ('code', 'up root'), ('data', 'root'), ('data', './/../dest/'))]
    + [('edit', dict(part='code', prefix='', alphabet=_ANY, lo=0, hi=3)), ('edit', dict(part='code', prefix='../', alphabet=_ANY, lo=0, hi=3, also=['code/b'])), ('edit', dict(part='code', prefix='root', alphabet=_ANY, lo=0, hi=2, also=['code/a/b'])),
       ('edit', dict(part='data', prefix='', alphabet=_ANY, lo=0, hi=3, review=True)), ('edit', dict(part='data', prefix='../', alphabet=_ANY, lo=0, hi=3, review=True, also=['data/b'])), ('edit', dict(part='data', prefix='slash root', alphabet=_ANY, lo=0, hi=2, review=True)),
       ('edit', dict(part='code', prefix='..', alphabet=_ANY, lo=0, hi=2, suffix='/a'))]
    + [('load', dict(prefix='', alphabet=_ANY, lo=0, hi=3)), ('load', dict(prefix='../', alphabet=_ANY, lo=0, hi=3, also=['data/b'])), ('load', dict(prefix='../in', alphabet=_ANY, lo=0, hi=3, how='update')), ('load', dict(prefix='slash root', alphabet=_ANY, lo=0, hi=2, also=['data/b'])),
       ('load', dict(prefix='../../output/', alphabet=_ANY, lo=0, hi=2, how='update'))],
    thorough=[('edit', dict(part=p, prefix=x, alphabet=_ANY, lo=0, hi=5, review=p == 'data', also=[p + '/a/b'], shard=2)) for p in ('code', 'data') for x in ('', '../', 'root', 'slash root', 'up root')]
    + [('load', dict(prefix=x, alphabet=_ANY, lo=0, hi=5, how=h, also=['data/a/b'], shard=2)) for h in ('add', 'update') for x in ('', '../', 'root', 'slash root', 'up root')]
    + [('direct', dict(part=p, prefix='', alphabet=_ANY, lo=6, hi=7, shard=2)) for p in ('code', 'data')],
)

PLAN['C06'] = dict(
    mod='c06',
    bounds='workspaces with 2-3 files of any contents and any names of one character of U+0001-D7FF, boxes with a bead, a file that is no bead and an archive that is not in the index, with and without index: every change of the file system made by save fails (no space, I/O error) or is interrupted; '
           'any one of the files has no permission, can not be opened the first or second time, vanishes, interrupts, is a fifo, a dangling link, a link loop or a closed directory; seven kinds of entries in place of the archive; six kinds of boxes that can not be used',
    reach=['failed', 'saved', 'store failed', 'bad file', 'taken', 'bad box'],
    quick=[('faults', dict(code=['A'], data=['B/C'], lo=0, hi=8, errno=e, indexed=i, way=w)) for e, i, w in ((28, False, 'cli'), (5, True, 'cli'), (None, False, 'cli'), (28, False, 'store'), (5, True, 'store'), (None, True, 'store'), (28, 'early', 'cli'))]
    + [('bad_file', dict(code=['A'], data=['B/A'], how=h)) for h in ('no permission', 'open', 'second open', 'vanish', 'interrupt', 'second interrupt', 'fifo', 'dangling', 'loop', 'directory')]
    + [('bad_file', dict(code=['A/B', 'C'], data=['A'], how=h, indexed=True)) for h in ('second open', 'fifo')]
    + [('taken', dict(what=w, code=['A'], way=y, indexed=w == 'bead')) for w in ('bead', 'junk', 'empty', 'directory', 'link', 'read only') for y in ('cli', 'store')]
    + [('bad_box', dict(how=h, code=['A'])) for h in ('read only', 'missing', 'file', 'unknown', 'not a workspace', 'two boxes')],
    thorough=[('faults', dict(code=['A/B', 'C'], data=['B/C', 'A'], lo=0, hi=12, errno=e, indexed=i)) for e in (28, 13, None) for i in (False, True)]
    + [('bad_file', dict(code=['A', 'B/C'], data=['A', 'B/C'], how=h, indexed=True)) for h in ('no permission', 'open', 'second open', 'vanish', 'interrupt', 'fifo', 'dangling', 'loop', 'directory')],
)

_C16_START = ('nothing', 'loaded', 'not loaded', 'two', 'half')
PLAN['C16'] = dict(
    mod='c16',
    bounds='every sequence of two (thorough: three) of 21 input commands over two inputs from five start states, with three versions of one bead and another bead in two boxes, all with any data; inputs with any name of 1-2 characters of U+0001-D7FF',
    reach=['done', 'refused', 'accepted'],
    quick=[('sequence', dict(start=s, first=f, steps=2, indexed=f % 2 == 0)) for s in ('loaded', 'not loaded', 'two', 'half') for f in range(21)]
    + [('sequence', dict(start='nothing', first=f, steps=2)) for f in (0, 2, 4, 12)]
    + [('names', dict(spec=dict(alphabet=_ANY, lo=1, hi=2))), ('names', dict(spec={'alphabet': _ANY, 'lo': 1, 'hi': 1, 'other': 'o', 'not': ['o']})), ('names', dict(spec={'alphabet': _ANY, 'lo': 1, 'hi': 1, 'other': '\u03b4', 'not': ['\u03b4']})), ('names', dict(spec=dict(alphabet=['..', '//', '__', 'aa', 'ot', 'er'], lo=3, hi=3, shard=2)))],
    thorough=[('sequence', dict(start=s, first=f, steps=3, indexed=f % 2 == 1)) for s in _C16_START for f in range(21)],
)

PLAN['C17'] = dict(
    mod='c17',
    bounds='up to 4 beads of two kinds in two boxes, with and without index, in any order, the times differ in the last two digits of the microseconds and in the time zone (two); the input, loaded or not, refers to any one of them or to another time; any time limit; one or three inputs; one of the archives lost, replaced or damaged in six ways while two inputs are updated',
    reach=['newest', 'time', '--next', '--prev', 'all', 'chain', 'one bad'],
    quick=[('one', dict(n=3, kinds=k, how=h, zones=z, indexed=i, places=p)) for h in ('newest', 'time', '--next', '--prev') for k, z, i, p in (
        (['k', 'k', 'k'], False, (), ['one', 'two', 'both']), (['k', 'k', 'l'], True, ('one',), ['one', 'two', 'both']), (['k', 'k', 'k'], False, ('one', 'two'), ['two', 'two', 'one']))]
    + [('one', dict(n=3, kinds=['k', 'k', 'k'], how=h, zones=True, indexed=('two',), places=['one', 'one', 'two'])) for h in ('--next', '--prev')]
    + [('every', dict(n=3, kinds=['k', 'l', 'k'], inputs=['k', 'l', 'm'], time=t, zones=True, indexed=i)) for t in (False, True) for i in ((), ('one',))]
    + [('every', dict(n=3, kinds=['k', 'k', 'k'], inputs=['m', 'k', 'k'], time=True))]
    + [('every', dict(n=2, kinds=['k', 'l'], inputs=['k', 'l'], time=t, loaded=True, indexed=i)) for t, i in ((True, ()), (False, ('two',)))] + [('every', dict(n=2, kinds=['k', 'k'], inputs=['k'], time=True, loaded=True, zones=True, places=['one', 'two']))]
    + [('one', dict(n=2, kinds=['k', 'k'], how=h, loaded=True, indexed=('one',), places=['one', 'two'])) for h in ('newest', 'time', '--next', '--prev')]
    + [('chain', dict(n=3)), ('chain', dict(n=3, zones=True, indexed=('one',)))]
    + [('one_bad', dict(how=h, order=o, indexed=i, bad_kind=b)) for h in ('truncated', 'junk', 'deleted', 'replaced', 'unreadable', 'damaged') for o, i, b in (('ab', True, 'k'), ('ba', True, 'k'), ('ab', False, 'l'))],
    thorough=[('one', dict(n=4, kinds=k, how=h, zones=z, indexed=i, places=['one', 'two', 'both', 'two'], shard=3)) for h in ('newest', 'time', '--next', '--prev') for k in (['k'] * 4, ['k', 'l', 'k', 'k']) for z, i in ((False, ()), (True, ('one',)))]
    + [('chain', dict(n=4, zones=True, shard=2)), ('every', dict(n=4, kinds=['k', 'l', 'k', 'l'], inputs=['l', 'k', 'm'], time=True, shard=2))],
)

PLAN['C18'] = dict(
    mod='c18',
    bounds='workspaces and inputs with one or two of 11 kinds of entries (read only files and directories, links to files and directories outside, to the workspace, to itself, dangling ones, in directories) in the workspace, its output, temp and input directory or in an input; the data itself a link; '
           'discard in nine ways, 14 states that are no valid workspace, input unload, delete, update, replace and load; the process dies or fails at every change of the file system',
    reach=['discarded', 'refused', 'data', 'interrupted'],
    quick=[('discard', dict(n=1, how=h, place=p)) for h, p in (('inside', ''), ('below', '/output'), ('given', '/temp'), ('forced', '/input'), ('forced broken', ''), ('nuke', '/input'), ('given', ''), ('forced directory', ''), ('forced part', ''), ('from another', ''))]
    + [('discard', dict(n=2, how='inside', place='', shard=1))]
    + [('refused', dict(what=w, how=h)) for w, h in (('nothing', 'given'), ('file', 'given'), ('directory', 'given'), ('directory', 'inside'), ('empty', 'inside'), ('dangling', 'given'), ('no metadata', 'given'), ('no metadata', 'inside'), ('metadata is a directory', 'given'), ('no input', 'given'),
                                                     ('no output', 'inside'), ('no temp', 'given'), ('file input', 'given'), ('file temp', 'inside'), ('file output', 'given'), ('below metadata', 'given'), ('parent', 'given'), ('parent', 'inside'))]
    + [('data', dict(n=1, command=c)) for c in ('unload', 'unload all', 'delete', 'update', 'replace')]
    + [('data', dict(n=0, command=c, top=t, other_kind=k)) for c in ('unload', 'delete', 'update', 'replace') for t, k in (('link', 'read only file'), ('link to another input', 'file'), ('link to output', 'link to a directory'))]
    + [('data', dict(n=1, command=c, partial=True)) for c in ('load', 'delete', 'replace')]
    + [('data', dict(n=0, command='load', partial=True, top='link')), ('data', dict(n=1, command='unload', other_kind='read only directory'))]
    + [('crashed', dict(command=c, first=f, hi=14)) for c, f in (('unload', 5), ('delete', 3), ('replace', 2), ('update', 4))]
    + [('crashed', dict(command='discard', first=5, hi=24))],
    thorough=[('discard', dict(n=2, how=h, place=p, shard=1)) for h in ('inside', 'forced', 'forced broken', 'nuke') for p in ('', '/input', '/output', '/temp', '/.bead-meta')]
    + [('data', dict(n=2, command=c, partial=p, shard=2)) for c, p in (('unload', False), ('delete', False), ('update', False), ('replace', False), ('update all', False), ('load', True), ('delete', True))]
    + [('crashed', dict(command=c, first=f, hi=45 if c == 'discard' else 25, shard=2)) for c in ('unload', 'delete', 'replace', 'update', 'discard') for f in range(11)],
)

PLAN['C19'] = dict(
    mod='c19',
    bounds='every sequence of up to four box add and box forget commands with any names of one letter (also of 0-2 characters of U+0001-D7FF) and ways to give directories (in each other, with names starting with each other, links, other spellings, missing, files); any directory name of 1-2 characters; using, saving to and indexing boxes',
    reach=['added', 'refused', 'forgotten', 'odd', 'used'],
    quick=[('sequence', dict(ops='aa')), ('sequence', dict(ops='aaf', kinds=['one', 'two', 'link to two'])), ('sequence', dict(ops='afa', kinds=['one', 'one again', 'two'])), ('sequence', dict(ops='aafa', kinds=['one', 'two'], shard=2)), ('sequence', dict(ops='fa')), ('sequence', dict(ops='aaaf', kinds=['one', 'two', 'dir'], shard=2)),
           ('sequence', dict(ops='afa', alphabet=_ANY, lo=0, hi=2, kinds=['one'])), ('sequence', dict(ops='aaf', alphabet=_ANY, lo=1, hi=1, kinds=['one', 'dir'])),
           ('sequence', dict(ops='aafa', kinds=['sub', 'sub/dir'], shard=2)), ('sequence', dict(ops='aaa', kinds=['here', 'sub', 'sub/dir', 'sub/dir2'], shard=2)),
           ('sequence', dict(ops='a', kinds=['absolute one', 'dangling', 'file', 'missing', 'one again']))]
    + [('odd_names', dict(alphabet=_ANY, lo=0, hi=2, dlo=1, dhi=2))]
    + [('used', dict(way=w)) for w in ('save', 'index', 'reindex', 'gone', 'default', 'home')],
    thorough=[('sequence', dict(ops='aafaf', kinds=['one', 'two', 'link to two'], shard=4)), ('sequence', dict(ops='aaaff', kinds=['one', 'two', 'dir'], shard=4)), ('sequence', dict(ops='aaf', alphabet=_ANY, lo=0, hi=3, kinds=['one', 'dir'], shard=2)), ('odd_names', dict(alphabet=_ANY, lo=0, hi=4, dlo=1, dhi=3))],
)

_C27 = ('status', 'save', 'discard', 'nuke', 'add', 'load', 'unload', 'update', 'delete')
PLAN['C27'] = dict(
    mod='c27',
    bounds='up to three directories in each other (directly or in the input, output, temp or metadata directory), each nothing, a valid workspace or one of seven kinds of broken workspaces; nine commands run at any depth, or in another workspace with an explicit one',
    reach=['outside', 'inside', 'refused', 'explicit'],
    quick=[('nearest', dict(states='???', command=c, depth=3)) for c in _C27]
    + [('nearest', dict(states='???', command=c, depth=d, subs=s, broken=[b])) for c, d, s, b in (('status', 2, [1, 2, 3], 'no output'), ('save', 3, [2, 4, 0], 'file for temp'), ('discard', 1, [0, 1, 0], 'no input'), ('discard', 3, [2, 3, 4], 'directory for metadata'), ('add', 2, [3, 0, 0], 'no temp'), ('update', 2, [0, 2, 0], 'empty'), ('delete', 0, [0, 0, 0], 'no metadata'))]
    + [('explicit', dict(command=c)) for c in _C27],
    thorough=[('nearest', dict(states='???', command=c, depth=d, subs=s, broken=list(b))) for c in _C27 for d in (1, 2, 3) for s in ([0, 0, 0], [1, 2, 3], [2, 4, 1]) for b in (('no metadata', 'no input', 'file for temp'), ('no output', 'no temp', 'directory for metadata', 'empty'))],
)

_C28 = ('file', 'empty file', 'directory', 'empty directory', 'workspace', 'link to a file', 'link to a directory', 'link to a workspace', 'broken workspace', 'read only directory', 'link to itself')
PLAN['C28'] = dict(
    mod='c28',
    bounds='11 kinds of existing files, directories and links, with any content, in place of the new directory, given in five ways, for new, edit by name and by file and review; new with any name of 0-4 characters of U+0001-D7FF',
    reach=['existing', 'created', 'refused', 'fresh'],
    quick=[('existing', dict(command=c, what=w, how=h)) for c, hows in (('new', ('derived', 'relative', 'absolute', 'slash', 'dots')), ('edit', ('derived', 'dots')), ('review', ('derived', 'relative')), ('edit file', ('derived', 'absolute', 'slash'))) for w in _C28 for h in hows]
    + [('names', dict(alphabet=_ANY, lo=0, hi=3)), ('names', dict(alphabet=_ANY, lo=1, hi=2, prefix='sub/')), ('names', dict(alphabet=_ANY, lo=1, hi=2, prefix='sub/../')), ('names', dict(alphabet=_ANY, lo=1, hi=1, after='_b')), ('names', dict(alphabet=['__', '::', '\\\\', '..', 'aa'], lo=4, hi=4))]
    + [('fresh', dict(command=c, what=w)) for c in ('new', 'edit', 'review') for w in _C28],
    thorough=[('names', dict(alphabet=_ANY, lo=4, hi=6))],
)

_C29_DAMAGE = ('unreadable', 'odd compression', 'unreadable code', 'changed data', 'changed code', 'extra data', 'extra code', 'missing data', 'missing code', 'renamed', 'meta changed', 'no manifest', 'bad manifest', 'future', 'meta incomplete', 'truncated')
_C29_DURING = ('edit', 'review', 'file', 'add', 'load', 'update', 'load all')
_C29_COMMANDS = ('edit', 'review', 'add', 'add again', 'load', 'load all', 'update', 'update all', 'update ref', 'next')
PLAN['C29'] = dict(
    mod='c29',
    bounds='16 kinds of damage (unreadable in four ways, any new contents, any names of 1-2 or 1-4 characters of added and renamed members) to the newer of two versions with any data, given by name or file, without index or indexed before or after; ten commands, loaded and not loaded; archives replaced, removed or exchanged; replaced, damaged or removed before any of the first 24 (thorough: 60) accesses of a command to the box',
    reach=['damaged', 'wrong', 'right', 'replaced meanwhile'],
    quick=[('flow', dict(how=h, command=c, indexed='before' if (i + j) % 3 == 1 else 'after' if (i + j) % 3 == 2 else 'no', state='loaded' if i % 2 else 'not loaded')) for i, h in enumerate(_C29_DAMAGE) for j, c in enumerate(_C29_COMMANDS)]
    + [('flow', dict(how=h, command=c, ref='file')) for h in _C29_DAMAGE for c in ('edit', 'add', 'update ref')]
    + [('wrong', dict(command=c, how=h)) for c in ('load', 'all') for h in ('replaced', 'removed', 'swapped', 'unknown')]
    + [('during', dict(command=c, how=h, indexed=(i + j) % 2 == 1, last=24)) for i, c in enumerate(_C29_DURING) for j, h in enumerate(('other', 'changed data', 'missing code', 'extra code', 'no manifest', 'gone')) if (i + j) % 2 == 0 or c in ('load', 'edit')],
    thorough=[('during', dict(command=c, how=h, indexed=x, last=60, shard=1)) for c in _C29_DURING for h in ('other', 'gone', 'changed data', 'missing code', 'extra code', 'no manifest') for x in (False, True)]
    + [('flow', dict(how=h, command=c, indexed=i, state=s)) for h in _C29_DAMAGE for c in _C29_COMMANDS for i in ('no', 'before', 'after') for s in ('loaded', 'not loaded')],
)

PLAN['C30'] = dict(
    mod='c30',
    bounds='two versions with up to two files of any contents and any names of one character of U+0001-D7FF; add, replace, load, update and so on die, fail (no space, no permission) or are interrupted at every change of the file system (thorough: twice), or when the archive is opened',
    reach=['interrupted', 'read failure'],
    quick=[('flow', dict(command=c, files=['A', 'B/C'], lo=0, hi=20)) for c in ('add', 'load', 'load all')]
    + [('flow', dict(command=c, files=['A'], lo=0, hi=h, kind=k)) for c, h, k in (('load', 15, 'space'), ('load', 15, 'interrupt'), ('update', 22, 'crash'), ('replace', 22, 'crash'), ('replace', 22, 'space'), ('prev', 24, 'crash'), ('update', 22, 'interrupt'), ('unload', 12, 'crash'), ('delete', 14, 'crash'), ('delete', 14, 'interrupt'), ('unload', 12, 'space'))]
    + [('flow', dict(command='update all', files=['A'], lo=0, hi=40, shard=1))]
    + [('read_failure', dict(command=c, files=['A', 'B'], kind=k)) for c, k in (('load', 'io'), ('update', 'interrupt'), ('replace', 'io'), ('load', 'interrupt'))],
    thorough=[('flow', dict(command=c, files=['A', 'B/C'], lo=0, hi=35, kind=k, shard=2)) for c in ('add', 'replace', 'load', 'update', 'update all', 'prev', 'unload', 'delete') for k in ('crash', 'space', 'permission', 'interrupt')]
    + [('flow', dict(command=c, files=['A'], lo=0, hi=22, second=True, shard=3)) for c in ('load', 'add', 'update', 'replace')],
)

PLAN['C31'] = dict(
    mod='c31',
    bounds='up to two boxes with any names of 1-2 characters of U+0001-D7FF, up to two inputs with any kinds and content ids: box add, box forget, saving without any box, input add, replace, update, load, unload and delete die, fail (no space, no permission) or are interrupted at every change of the file system',
    reach=['interrupted'],
    quick=[('registry', dict(command=c, n=n, hi=6, kind=k)) for c, n, k in (('add', 0, 'crash'), ('add', 1, 'crash'), ('add', 2, 'crash'), ('forget', 1, 'crash'), ('forget', 2, 'crash'), ('add', 1, 'space'), ('forget', 2, 'permission'), ('add', 1, 'interrupt'))]
    + [('registry', dict(command='save', n=0, hi=9, kind=k)) for k in ('crash', 'space', 'interrupt')]
    + [('metadata', dict(command=c, inputs=n, hi=20, kind=k)) for c, n, k in (('add', 2, 'crash'), ('add', 0, 'crash'), ('replace', 1, 'crash'), ('update', 2, 'crash'), ('delete', 1, 'crash'), ('delete', 2, 'crash'), ('load', 2, 'crash'), ('unload', 2, 'crash'), ('update all', 2, 'crash'), ('add', 1, 'space'), ('delete', 2, 'interrupt'), ('update', 1, 'permission'))],
    thorough=[('registry', dict(command=c, n=3, hi=8, kind=k, shard=2)) for c in ('add', 'forget') for k in ('crash', 'space', 'interrupt')]
    + [('metadata', dict(command=c, inputs=2, hi=30, kind=k)) for c in ('add', 'replace', 'update', 'update all', 'delete', 'load', 'unload') for k in ('crash', 'space', 'permission', 'interrupt')],
)

_C34 = ['save', 'index', 'reindex', 'search', 'remove']
PLAN['C34'] = dict(
    mod='c34',
    bounds='boxes with two beads, with and without index; save, index, reindex, search, or removal of an archive with index update, and another one of them at any of its up to 40 accesses to the box; edit, input add and input update with a save of a newer version, index, reindex or removal at any access; two saves under one name, also in the same microsecond',
    reach=['meanwhile', 'one after the other', 'fetched', 'refused'],
    quick=[('pair', dict(first=a, second=b, indexed=i, last=40)) for a in _C34 for b in _C34 for i in (False, True) if (a, b) != ('remove', 'remove')]
    + [('pair', dict(first='save', second='save', indexed=i, last=40, same=s)) for i in (False, True) for s in (True, 'time')]
    + [('fetch', dict(command=c, second=b, indexed=i, last=40)) for c in ('add', 'update', 'edit') for b in ('save', 'index', 'reindex', 'remove') for i in (False, True)],
)

PLAN['C43'] = dict(
    mod='c43',
    bounds='workspaces with up to 4 files, any contents, opaque or of 0-20 bytes; one of 11 changes of a code or a data file, or of the input definitions, at any of up to 40 accesses to the workspace; boxes with and without index',
    reach=['saved', 'saved meanwhile', 'refused'],
    quick=[('meanwhile', dict(what=w, file=f, last=40, indexed=i)) for w in ('rewrite', 'grow', 'shrink', 'append', 'remove', 'replace', 'directory', 'dangling', 'new file', 'rename') for f, i in (('output/data', False), ('code', True))]
    + [('meanwhile', dict(what='input', file='', last=40))] + [('meanwhile', dict(what=w, file='output/data', last=40, size=n)) for w in ('rewrite', 'append', 'grow') for n in (20, 3 * 1024 * 1024)],
)

PLAN['C36'] = dict(
    mod='c06',
    bounds='workspaces with 2-3 files of any contents and any names of 1-2 characters of U+0001-D7FF, boxes with a bead, a file that is no bead and an archive that is not in the index, with and without index: the process dies at any change of the file system made by save',
    reach=['crashed'],
    quick=[('crashed', dict(code=['A'], data=['B/C'], lo=0, hi=14)), ('crashed', dict(code=['A'], data=['B'], lo=0, hi=14, indexed=True)), ('crashed', dict(code=['A'], data=[], lo=0, hi=14, indexed='early')), ('crashed', dict(code=['A/B', 'C'], data=[], lo=0, hi=14)), ('crashed', dict(code=['A'], data=[], lo=0, hi=14, indexed=True, n=2))],
    thorough=[('crashed', dict(code=['A', 'B/C'], data=['A', 'B/C'], lo=0, hi=25, indexed=i, shard=2)) for i in (False, True)],
)

PLAN['C37'] = dict(
    mod='c37',
    bounds='new with any name of 1-2 letters; edit of beads with up to 3 files of any contents and any names of one character of U+0001-D7FF and up to two inputs, with and without review: the process dies, an operation fails (no space, no permission, I/O error) or is interrupted at any change of the file system',
    reach=['incomplete', 'complete', 'nothing'],
    quick=[('about_new', dict(lo=0, hi=12)), ('about_new', dict(lo=0, hi=12, n=2)), ('about_edit', dict(code=['A'], data=[], lo=0, hi=20)), ('about_edit', dict(code=['A', 'B/C'], data=['A'], lo=0, hi=9)), ('about_edit', dict(code=['A', 'B/C'], data=['A'], lo=10, hi=25)),
           ('about_edit', dict(code=['A'], data=['A/B'], lo=0, hi=25, review=True)), ('about_edit', dict(code=[], data=['A'], lo=0, hi=20, review=True, inputs=2))]
    + [('about_edit', dict(code=['A'], data=['A'], lo=0, hi=25, review=v, fault=True, errno=e)) for e, v in ((28, True), (None, True), (13, False), (5, False))],
    thorough=[('about_edit', dict(code=['A/B', 'C'], data=['A', 'B/C'], lo=0, hi=30, review=v, inputs=2, shard=2)) for v in (False, True)] + [('about_edit', dict(code=['A/B'], data=['A', 'C'], lo=0, hi=30, review=v, fault=True, errno=e, shard=2)) for v in (False, True) for e in (28, 13, 5, None)],
)

PLAN['C38'] = dict(
    mod='c38',
    bounds='up to 3 beads of two kinds in two boxes, with and without index, in any order in time (last digit of the microseconds, two zones); up to 3 inputs that refer to any of them or to a bead that is nowhere, loaded or not',
    reach=['status', 'broken'],
    quick=[('status', dict(n=2, kinds=['k', 'k'], places=['one', 'both'], nicks=['in'])), ('status', dict(n=2, kinds=['k', 'l'], places=['both', 'two'], nicks=['in', 'a'], verbose=True)), ('status', dict(n=3, kinds=['k', 'k', 'k'], places=['one', 'both', 'two'], nicks=['in'], zones=True, indexed=('two',))),
           ('status', dict(n=2, kinds=['k', 'k'], places=['two', 'one'], nicks=['b', 'a'], way='given', indexed=('one', 'two'))), ('status', dict(n=1, kinds=['k'], places=['one'], nicks=[])), ('status', dict(n=1, kinds=['k'], places=['one'], nicks=[], verbose=True, way='given')),
           ('status', dict(n=2, kinds=['l', 'k'], places=['one', 'two'], nicks=['in', 'z'], way='given')), ('broken', dict(what='nothing')), ('broken', dict(what='broken'))],
    thorough=[('status', dict(n=3, kinds=k, places=p, nicks=['in', 'a'], zones=True, verbose=v, indexed=i, shard=3)) for k, p, v, i in ((['k', 'k', 'k'], ['both', 'one', 'two'], True, ()), (['k', 'l', 'k'], ['one', 'both', 'both'], False, ('one',)))],
)

PLAN['C39'] = dict(
    mod='c39',
    bounds='sequences of two (with a given first or second one; thorough: three) of 11 sub-commands on webs of up to 3 beads and 2 inputs in any arrangement; any wrong word of 1-3 printable characters in nine places; two boxes with up to two beads',
    reach=['pipeline', 'unparsable', 'start', 'usage'],
    quick=[('pipeline', dict(inputs=[0, 1], first=o, second=None)) for o in ('source', 'sink', 'through', 'heads', 'color', 'save', 'dot', 'png', 'svg', 'view', 'load')]
    + [('pipeline', dict(inputs=[0, 1, 1], first='heads', second=None, shard=2)), ('pipeline', dict(inputs=[0, 0, 1], first='color', second=None, shard=1)), ('pipeline', dict(inputs=[], first=None, second='color'))]
    + [('unparsable', dict(how=h, n=n, start=s)) for h in ('unknown', 'no file', 'no file for load', 'no delimiter', 'no end', 'swapped', 'end twice', 'after', 'first') for n, s in ((1, 'load'), (3, 'boxes'))]
    + [('start', dict(what=w)) for w in ('boxes', 'colour', 'load', 'load later', 'other files')] + [('start', dict(what='boxes', n=0)), ('nothing', {})],
    thorough=[('pipeline', dict(inputs=[0, 1, 1], first=o, second=None, third=t, shard=3)) for o in ('source', 'sink', 'heads', 'color', 'load') for t in ('heads', 'color', 'sink', 'view')],
)

PLAN['C40'] = dict(
    mod='c40',
    bounds='up to two (thorough: three) known boxes, each in one of nine states (without index, with one, with one that is out of date in three ways, empty, with junk, missing, a file in its place), and another directory; boxes in each other; index and reindex of a box, a directory, all, without argument, of unknown boxes and directories, and with conflicting arguments',
    reach=['all', 'none', 'unknown', 'directory', 'elsewhere', 'no directory', 'two', 'box', 'nested', 'repeated'],
    quick=[('known', dict(command=c, which=w, n=2, second=s)) for c in ('index', 'reindex') for w, s in (('all', None), ('box', None), ('directory', 'grown'), ('elsewhere', 'plain'), ('unknown', 'grown'), ('none', 'plain'), ('no directory', 'shrunk'), ('two', 'plain'))]
    + [('known', dict(command=c, which='none', n=1)) for c in ('index', 'reindex')] + [('known', dict(command=c, which=w, n=0)) for c in ('index', 'reindex') for w in ('none', 'all')]
    + [('nested', dict(command=c, which=w)) for c in ('index', 'reindex') for w in ('all', 'box', 'directory')]
    + [('repeated', dict(first=a, second=b)) for a in ('index', 'reindex') for b in ('index', 'reindex')],
    thorough=[('known', dict(command=c, which=w, n=3, shard=3)) for c in ('index', 'reindex') for w in ('all', 'box', 'directory')],
)

PLAN['C41'] = dict(
    mod='c41',
    bounds='up to three boxes with any names of 1-2 printable characters, with and without index, one possibly forgotten or with its directory missing; any name of 1-2 characters asked for, or none; from inside and outside of the workspace; no box at all and five states of the place of the first box',
    reach=['stored', 'refused', 'first box', 'no place', 'no workspace'],
    quick=[('chosen', dict(n=1, way='given')), ('chosen', dict(n=1, way='default', where='outside')), ('chosen', dict(n=2, way='given', indexed=(0,))), ('chosen', dict(n=2, way='given', indexed=(1,), where='below', hi=2)), ('chosen', dict(n=2, way='default')), ('chosen', dict(n=3, way='given', where='outside')), ('chosen', dict(n=3, way='default')),
           ('chosen', dict(n=2, way='default', where='below', forgotten=True)), ('chosen', dict(n=2, way='given', forgotten=True, hi=2)), ('chosen', dict(n=3, way='given', forgotten=True)), ('chosen', dict(n=3, way='default', forgotten=True))]
    + [('chosen', dict(n=n, way=w, lost=l)) for n, l in ((1, 0), (2, 0), (2, 1)) for w in ('given', 'default')]
    + [('first_box', dict(what=w)) for w in ('nothing', 'directory', 'beads', 'file', 'link')] + [('no_workspace', dict(what=w)) for w in ('box', 'none')],
    thorough=[('chosen', dict(n=3, way='given', hi=3, indexed=(0, 2), shard=2)), ('chosen', dict(n=3, way='given', hi=3, forgotten=True, shard=2))],
)

PLAN['C42'] = dict(
    mod='c42',
    bounds='up to 3 beads of two names in two boxes, with and without index, in any order in time (last digit of the microseconds, two zones), any time limit or none; three names asked for, with directories, dangling links and files of the same name; files given by path in nine ways, with any name of 1-2 characters of U+0001-D7FF that a bead can have; three kinds of files that are no beads; edit, review, add (also under its own name) and update',
    reach=['by name', 'refused', 'by path', 'not a bead'],
    quick=[('by_name', dict(command=c, n=3, names=n, places=p, zones=z, indexed=i)) for c, n, p, z, i in (('edit', ['a', 'a', 'b'], ['one', 'two', 'one'], True, ()), ('review', ['a', 'b', 'a'], ['one', 'one', 'one'], False, ('one',)), ('add', ['a', 'a', 'b'], ['one', 'two', 'one'], True, ('one',)), ('add same', ['a', 'a', 'a'], ['one', 'two', 'two'], False, ('two',)), ('update', ['b', 'a', 'a'], ['two', 'one', 'two'], True, ('one', 'two')))]
    + [('by_name', dict(command=c, n=2, names=['a', 'b'], places=['one', 'two'], time=False, decoy=d)) for c in ('edit', 'add', 'add same', 'update') for d in (None, 'directory', 'dangling', 'other directory')]
    + [('by_name', dict(command=c, n=3, names=['a', 'a', 'a'], places=['one', 'two', 'one'], time=False, zones=True)) for c in ('edit', 'add', 'update')]
    + [('by_path', dict(command=c, how=h, indexed=('one',) if h in ('relative', 'renamed') else (), time=h in ('named like a bead', 'copy'))) for c in ('edit', 'review', 'add', 'update') for h in ('absolute', 'relative', 'dots', 'renamed', 'named like a bead', 'named like a box', 'any name', 'link', 'copy')]
    + [('not_a_bead', dict(command=c, what=w)) for c in ('edit', 'add', 'update') for w in ('text', 'junk', 'empty')],
    thorough=[('by_name', dict(command=c, n=4, names=['a', 'a', 'b', 'a'], places=['one', 'two', 'one', 'two'], zones=True, indexed=('one',), shard=3)) for c in ('edit', 'add', 'update')],
)

_KINDS = ['space', 'permission', 'io', 'interrupt']
PLAN['C45'] = dict(
    mod='c45',
    bounds='20 commands, each with one failure at any of its changes of the file system (no space, no permission, input/output error, interrupted by the user; up to 45 changes), or of opening the archive or file to be read; beads and workspaces with up to 3 files of any contents and any names of one character of U+0001-D7FF, up to one input with any ids, boxes with and without index; two inputs, two boxes',
    reach=['failed', 'success'],
    quick=[('about_inputs', dict(command=c, files=f, lo=0, hi=46, kind=_KINDS[(i + j) % 4])) for i, c in enumerate(['add', 'replace', 'load', 'load all', 'update', 'update all', 'next', 'unload', 'unload all', 'delete']) for j, f in enumerate([['A'], ['A', 'B/x']])]
    + [('about_inputs', dict(command=c, files=['A', 'x/B'], lo=0, hi=1, kind=k)) for i, c in enumerate(['add', 'replace', 'load', 'load all']) for k in ('unreadable', 'reading interrupted')]
    + [('about_workspaces', dict(command=c, code=a, data=b, lo=0, hi=46, kind=_KINDS[(i + j) % 4], indexed=i % 2 == 0)) for i, c in enumerate(['edit', 'review', 'save', 'save to']) for j, (a, b) in enumerate([(['A', 'd/x'], ['B/C']), (['x'], ['A']), ([], ['A/B'])])]
    + [('about_workspaces', dict(command=c, code=['A', 'd/x'], data=['B/C'], lo=0, hi=46, kind=_KINDS[i % 4])) for i, c in enumerate(['discard', 'discard force', 'nuke', 'discard', 'nuke'])]
    + [('about_workspaces', dict(command=c, code=['x'], data=['A'], lo=0, hi=2, kind=k)) for c in ('save', 'edit', 'review') for k in ('unreadable', 'reading interrupted')]
    + [('about_workspaces', dict(command='new', code=[], data=[], lo=0, hi=20, kind=k)) for k in _KINDS]
    + [('about_boxes', dict(command=c, lo=0, hi=10, kind=k)) for c in ('add', 'forget') for k in _KINDS]
    + [('about_web', dict(command=c, lo=0, hi=10, kind=k)) for c in ('save', 'dot') for k in ('space', 'interrupt')],
    thorough=[('about_inputs', dict(command=c, files=['A', 'B/x', 'C'], lo=0, hi=60, kind=k, n=1, shard=2)) for c in ['add', 'replace', 'load', 'load all', 'update', 'update all', 'next', 'unload', 'unload all', 'delete'] for k in _KINDS]
    + [('about_workspaces', dict(command=c, code=['A', 'd/B', 'x'], data=['B/C'], lo=0, hi=60, kind=k, inputs=2, indexed=x, shard=3)) for c in ['edit', 'review', 'save', 'save to', 'discard'] for k in _KINDS for x in (True, False)],
)

_C44 = [(c, s, h) for c in ('index', 'reindex') for s in ('plain', 'grown', 'shrunk', 'swapped', 'complete') for h in ('read-only box', 'read-only index', 'unreadable index', 'junk index', 'directory', 'read-only both')
        if not (s == 'plain' and 'index' in h.split() and h != 'junk index' or s == 'plain' and h == 'read-only both')]
PLAN['C44'] = dict(
    mod='c44',
    bounds='two boxes, one of them hindered, with up to three beads of any kinds and inputs; no, an incomplete or an outdated index; six obstacles, or the database full or locked from any of the first 24 statements and commits on',
    reach=['done', 'failed'],
    quick=[('hindered', dict(command=c, which='all' if (i % 3) == 0 else 'box' if i % 3 == 1 else 'dir', state=s, how=h)) for i, (c, s, h) in enumerate(_C44)]
    + [('hindered', dict(command=c, which='all', state=s, how=h, last=24)) for c in ('index', 'reindex') for s in ('plain', 'grown', 'shrunk', 'swapped') for h in ('full', 'locked')]
    + [('hindered', dict(command=c, which='none', state=s, how=h, last=24, n=1)) for c in ('index', 'reindex') for s in ('plain', 'swapped') for h in ('full', 'junk index')],
    thorough=[('hindered', dict(command=c, which=w, state=s, how=h, n=3)) for c, s, h in _C44 for w in ('all', 'box', 'dir')]
    + [('hindered', dict(command=c, which=w, state=s, how=h, last=40, n=3)) for c in ('index', 'reindex') for w in ('all', 'dir') for s in ('plain', 'grown', 'shrunk', 'swapped') for h in ('full', 'locked')],
)
