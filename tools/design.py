#!/usr/bin/env python3
"""Regenerate the per-property section of DESIGN.md from props/plan.py, properties.jsonl and the notes below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import plan      # noqa: E402

# property: (what is executed symbolically and against what oracle, what lies outside the claim)
N = {
    'C01': ('A workspace with symbolic file names and contents is written, `save` (or `Box.store`) is run, and the members of the archive are compared as sets of (name, bytes) with the list the harness itself wrote; metadata attributes are compared with what was put in; the workspace is snapshotted before and after.',
            'more files, longer names, non-regular files (C06), permissions of members'),
    'C02': ('A bead made of symbolic files is saved, then edited / reviewed / added / loaded / updated through the command line; every file below the result and every input attribute is compared with the list the harness wrote.', 'more files, longer names'),
    'C03': ('A saved archive is rewritten by the harness with one symbolic modification; `validate` must raise `InvalidArchive` exactly when something really differs, or the content id must differ when the manifest was changed.', 'two independent modifications at once except the ones listed; modifications below the zip level that leave all members readable and equal'),
    'C04': ('Archives with hostile but consistent member names (symbolic tail) are unpacked by the real commands; everything outside of the destination is snapshotted before and after; the destination may be partly written.', 'names longer than prefix+5; links inside archives (zipfile does not create links)'),
    'C05': ('Two saves of symbolic workspaces; the content ids are terms over an injective hash, equality of the ids must be equivalent to equality of the contents.', 'collisions of SHA-512'),
    'C06': ('Save is run with the k-th change of the file system failing (errno or KeyboardInterrupt), k symbolic, or with a source file that can not be read; box and workspace are compared with their snapshots.', 'failures of reading the index file itself; dangling links at the name of the archive (unspecified)'),
    'C07': ('The same search runs with and without the foreign file; results are compared as multisets with the beads saved.', 'archives whose manifest is not JSON (they still load), names consisting of dots only before .zip; two archives with the same name and content id'),
    'C08': ('new/save/edit with a symbolic name, then searches by that name and by any other symbolic name.', 'longer names, names that are not valid Unicode'),
    'C09': ('Beads with symbolic names, kinds, inputs, freeze times; symbolic conditions; the result must be exactly the beads for which a reference predicate over instants (integers) holds, with and without index. SQL is interpreted on symbolic values.', 'freeze times in the future in indexed boxes; equal archives under two names'),
    'C10': ('As C09 with the selectors; the oracle is the definition (a match with no smaller one, the one with exactly n smaller ones).', 'n < 0; more than three beads'),
    'C11': ('Search, then a symbolic rename/copy/removal/replacement, then resolve; the archive must carry the id, name and box of the result or resolving must raise.', 'replacing a file in place while the very archive is open'),
    'C12': ('Histories over {save, copy in, remove, rename, index, rebuild} chosen by symbolic integers, then search; the result must be the archives then present.', 'in place replacement of an archive by a different one with the same file name; longer histories'),
    'C13': ('The parser runs on symbolic characters; a reference acceptor/evaluator written in integer arithmetic over the digits is the oracle.', 'characters beyond the BMP'),
    'C14': ('`timestamp()` with a symbolic clock and zone, parsed back, compared as integers of microseconds; pairs around transitions.', 'offsets with seconds; zones with several transitions a month'),
    'C15': ('The option parser runs on symbolic characters and amounts; reference grammar and calendar arithmetic as oracle.', 'digits of other scripts; more than two amounts in the symbolic tier'),
    'C16': ('Sequences of commands chosen by symbolic integers through the command line; a model (dict of inputs and loaded data) is the oracle after each one.', 'longer sequences (the state after each command is one of the start states, so sequences compose)'),
    'C17': ('Versions with symbolic times and places; the expected version is defined by comparing instants; status of the input afterwards is compared.', 'equal freeze times of two versions of a kind'),
    'C18': ('A snapshot (names, contents, permissions, link targets) of everything is compared before/after; the tree to be deleted holds symbolic combinations of entries; crash and failure at a symbolic point.', 'hard links; `input` itself being a link; mount points'),
    'C19': ('Sequences of box add/forget with symbolic names; a list is the oracle; read back in a new program run.', 'longer sequences'),
    'C20': ('Sequences of operations on the real cache class with real (modelled) zip files; an explicit LRU list is the oracle; open handles are counted.', 'replacing a file under an open handle'),
    'C21': ('Bead collections in which every coincidence of names and ids is symbolic; links and phantoms are compared with their definition.', 'more beads'),
    'C22': ('Webs with symbolic cluster membership; reachability is defined by a bounded fixpoint over the symbolic links.', 'more beads'),
    'C23': ('As C22; freshness is defined recursively by the oracle over symbolic freeze times.', 'equal freeze times within a cluster; cyclic webs'),
    'C24': ('save then load of webs with symbolic text in every field, decoded by a JSON stub working on symbolic characters.', 'webs produced by filtering: loading recreates links of kept beads to dropped ones as phantoms (a limit of the file format, see below)'),
    'C25': ('The DOT text made of symbolic names is parsed by a small DOT/HTML-label parser running on symbolic characters; nodes, rows, colours, ports and edges are compared with the web.', 'control characters XML does not allow; content ids are hexadecimal'),
    'C26': ('The hash function is an uninterpreted injective function of the bytes fed to it; file/bytes/any chunking must feed the same; pairs of contents must not feed the same.', 'contents beyond the sizes listed'),
    'C27': ('Nested directories each in a symbolic state (valid, missing, broken in seven ways); the innermost valid one is the oracle; all others are snapshotted.', 'deeper nesting; mount points'),
    'C28': ('The target path is occupied by a symbolic kind of entry with symbolic content; everything is snapshotted.', 'dangling links at the target (unspecified)'),
    'C29': ('A symbolic damage is done to one version; every command that uses beads is run; in other instances the archive is replaced, damaged or removed at a symbolic one of the accesses of the command to the box; the workspace is snapshotted, or must be the one of the sound version.', 'damage to more than one archive at once'),
    'C30': ('The k-th change of the file system (symbolic k) kills the process, fails or is interrupted; then `is_loaded` must imply complete data; loading again must complete it.', 'loss of data already written but not flushed by the operating system (power failure)'),
    'C31': ('As C30 for the registry and the metadata; equality with the state before or after.', 'power failure (fsync is not modelled)'),
    'C32': ('Graphs with symbolic edges; the order must be a permutation that respects them, a cycle must raise; heads by definition.', 'equal freeze times within a cluster'),
    'C33': ('Each box in a symbolic state; the command must find the match if one exists by definition.', 'a corrupt index file; for status and update, an index out of date'),
    'C34': ('The first command runs up to its k-th access to the box (k symbolic), then the other command runs as a whole in a process of its own (fresh module state; natively a separate process), then the first goes on. Afterwards the box is searched and compared with the archives in it; what was found meanwhile is compared with the beads of the box.',
            'more than one change of process, accesses inside of a write transaction (SQLite makes the other process wait there) and the waiting itself (5 s), removing an archive while it is being indexed (the next update corrects the index), network file systems'),
    'C36': ('Save dies at a symbolic point; box and workspace are compared with their snapshots, everything found must validate, saving again must work.', 'power failure (write order of the operating system)'),
    'C37': ('new and edit die, fail or are interrupted at a symbolic point; whatever passes for a workspace must be complete, whatever does not must be refused by save, removable and repeatable.', 'power failure'),
    'C38': ('The output of `status` (symbolic text) is split into sections and every line is compared with the definition over symbolic freeze times and places.', 'the exact layout; equal freeze times of two versions of a kind'),
    'C39': ('Pipelines of sub-commands chosen symbolically through the command line; every output file must equal what the single steps give when they are run one at a time through the functions; the same with wrong words at a symbolic place.', 'graphviz itself (the call of the external program is recorded)'),
    'C40': ('Each box in a symbolic state; after the command each box must answer searches as its archives say (if asked for), or as before (if not).', 'more than three boxes'),
    'C41': ('Symbolic box names and requests; the directory that gets the archive is compared with the definition.', ''),
    'C42': ('Versions with symbolic times and places and a symbolic time limit; the content that arrives identifies the bead that was taken; the definition over instants is the oracle.', 'equal freeze times of versions of one name'),
    'C43': ('At the k-th access of save to the workspace (k symbolic) another process changes one file; the members of the archive are compared with the contents the files had before and after.', 'two changes during one save; a change between two reads of the same open file'),
    'C44': ('One box is hindered (permissions, no database, database full or locked from the k-th statement on, k symbolic); what the command reports is compared with the content of the index.', 'failures while archives are read; power loss inside sqlite'),
    'C45': ('The command runs with a failure at a symbolic change of the file system; when it reports success, what it should have done is compared with what is there (contents and names are symbolic).', 'two failures during one command; failures of the operating system to report errors; the newest version of a bead that can not be read is not seen by input update (C07)'),
}
NA = {
    'C35': 'not applicable: kinds are random UUIDs; uniqueness is a probabilistic fact about the random source, no code of the repository could be executed symbolically to decide it.',
}
out = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    if i in NA:
        out.append(NA[i] + '\n')
        continue
    s = plan.PLAN[i]
    how, outside = N[i]
    out.append(f"- Method and oracle: {how}")
    out.append(f"- Bounds: {s['bounds']}.")
    if outside:
        out.append(f"- Outside the claim: {outside}.")
    out.append(f"- Harness `props/{s['mod']}.py`; {len(s['quick'])} instances quick, {len(s.get('thorough', []))} more thorough (before splitting); must reach: {', '.join(s['reach'])}.")
    out.append('')
p = os.path.join(V, 'DESIGN.md')
text = open(p).read()
a, b = '<!-- properties: generated by tools/design.py -->\n', '<!-- end of properties -->'
i, j = text.index(a) + len(a), text.index(b)
open(p, 'w').write(text[:i] + '\n' + '\n'.join(out) + '\n' + text[j:])

# the planted bugs
rows = ['| bug | property | what it breaks | needs |', '|---|---|---|---|']
S = os.path.join(V, 'seeded')
for n in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, n, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
text = open(p).read()
a, b = '<!-- seeds: generated by tools/design.py -->\n', '<!-- end of seeds -->'
i, j = text.index(a) + len(a), text.index(b)
open(p, 'w').write(text[:i] + '\n' + '\n'.join(rows) + '\n\n' + text[j:])
