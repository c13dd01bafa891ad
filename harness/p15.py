"""P15: PathToken follows the file system."""
import os
import shutil
import tempfile

from harness.common import Case, make_cli, run_line
from symx.api import ISet, alphabet, drive

ASSUMPTIONS = [
    'the file system is a model with the operations the code uses (os.listdir, os.path.exists/isdir/isfile, '
    'pathlib.Path.exists/is_dir/is_file); every path model is re-run on real directories, which validates the model',
]

LETTER = ISet(((97, 122),))
NAMECH = ISet(((33, 126), (0xE0, 0xFF))).minus(ISet.of(map(ord, '"*/?[\\]')))
PATHCH = alphabet('abcdefghijklmnopqrstuvwxyz./')


class Node:
    def __init__(self, kind, entries=()):
        self.kind = kind                      # 'dir' or 'file'
        self.entries = list(entries)          # [[name, Node]]

    def child(self, name):
        for n, c in self.entries:
            if n == name:
                return c
        return None


class Tree:
    """A current directory and the directory above it."""

    def __init__(self, entries):
        self.cwd = Node('dir', entries)
        self.top = Node('dir', [['here', self.cwd]])

    def resolve(self, text):
        """The node a relative path names, or None. Not defined above self.top."""
        at = [self.top, self.cwd]
        for part in text.split('/'):
            if at[-1].kind != 'dir':
                return None
            if part == '' or part == '.':
                continue
            if part == '..':
                if len(at) == 1:
                    raise AssertionError('outside the modelled tree')
                at.pop()
                continue
            c = at[-1].child(part)
            if c is None:
                return None
            at.append(c)
        return at[-1]


# ---- the model of the file system used while the inputs are symbolic

class ModelPath:
    tree = None

    def __init__(self, path):
        self.text = path.text if isinstance(path, ModelPath) else path

    def _node(self):
        return self.tree.resolve(self.text)

    def is_dir(self):
        n = self._node()
        return n is not None and n.kind == 'dir'

    def is_file(self):
        n = self._node()
        return n is not None and n.kind == 'file'

    def exists(self):
        return self._node() is not None

    def __str__(self):
        return self.text

    def __repr__(self):
        return self.text

    def __truediv__(self, o):
        return ModelPath(str(self) + '/' + str(o))


class ModelOsPath:
    def __getattr__(self, name):
        return getattr(os.path, name)

    def exists(self, p):
        return ModelPath(p).exists()

    lexists = exists

    def isdir(self, p):
        return ModelPath(p).is_dir()

    def isfile(self, p):
        return ModelPath(p).is_file()


class ModelOs:
    path = ModelOsPath()

    def __getattr__(self, name):
        if name in ('scandir', 'walk', 'stat', 'lstat', 'access', 'chdir', 'getcwd'):
            raise NotImplementedError('file system model: ' + name)
        return getattr(os, name)

    def listdir(self, p='.'):
        n = ModelPath(p)._node()
        if n is None:
            raise FileNotFoundError(p)
        if n.kind != 'dir':
            raise NotADirectoryError(p)
        return [name for name, c in n.entries]


def make_real(node, path):
    for name, c in node.entries:
        p = os.path.join(path, name)
        if c.kind == 'dir':
            os.mkdir(p)
            make_real(c, p)
        else:
            open(p, 'w').close()


class Mounted:
    """The tree as the file system: the model in symbolic mode, a scratch directory in concrete mode."""

    def __init__(self, S, tree):
        self.S, self.tree = S, tree

    def __enter__(self):
        import nessaid_cli.tokens as T
        self.T = T
        if self.S.symbolic:
            self.saved = T.os, T.Path
            ModelPath.tree = self.tree
            T.os, T.Path = ModelOs(), ModelPath
        else:
            self.old = os.getcwd()
            self.dir = tempfile.mkdtemp(prefix='verif-p15-')
            here = os.path.join(self.dir, 'here')
            os.mkdir(here)
            make_real(self.tree.cwd, here)
            os.chdir(here)
        return self

    def refresh(self):
        """The tree has changed."""
        if not self.S.symbolic:
            here = os.path.join(self.dir, 'here')
            for n in os.listdir(here):
                p = os.path.join(here, n)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            make_real(self.tree.cwd, here)

    def __exit__(self, *a):
        if self.S.symbolic:
            self.T.os, self.T.Path = self.saved
        else:
            os.chdir(self.old)
            shutil.rmtree(self.dir)
        return False


def entries(S, what, sizes, kinds=('dir', 'file')):
    out = []
    for i, (lo, hi) in enumerate(sizes):
        name = S.str('%s%d' % (what, i), lo, hi, LETTER)
        for n, c in out:
            S.assume(n != name)
        out.append([name, Node(S.pick('%s%d.kind' % (what, i), kinds))])
    return out


def forest(S, top, sub):
    """Entries of the current directory; the first, if it is a directory, has entries of its own."""
    es = entries(S, 'entry', top)
    if sub and es and es[0][1].kind == 'dir':
        es[0][1].entries = entries(S, 'inner', sub)
    return Tree(es)


GRAMMAR = '''
token P PathToken();
root: "p" P << call path($2); >> | "q" P "x" << call pathx($2); >> ;
'''


def setup():
    from nessaid_cli.tokens import PathToken
    return make_cli(GRAMMAR, handlers=['path', 'pathx'], token_classes=[PathToken])


def inside(S, text):
    """Only paths that stay within the modelled tree."""
    S.assume(not text.startswith('/'))
    depth = 1
    for part in text.split('/'):
        if part == '..':
            depth -= 1
            S.assume(depth >= 0)
        elif part != '' and part != '.':
            depth += 1


def path_text(S, parts, width, ends=('', '/')):
    """A relative path of up to that many parts, each '.', '..' or any name."""
    text = ''
    for i in range(1 + S.choice('parts', parts)):
        if i:
            text += S.pick('separator%d' % i, ['/', '//'])
        k = S.pick('part%d' % i, ['name', '.', '..'])
        text += S.str('name%d' % i, 1, width, LETTER) if k == 'name' else k
    return text + S.pick('end', ends)


def judge(S, cli, tree, text, verb):
    rc, calls = run_line(cli, '%s "%s"%s' % (verb, text, ' x' if verb == 'q' else ''))
    S.observe('calls', calls)
    want = tree.resolve(text)
    if want is None:
        S.check(rc != 0 and calls == [], lambda: '%r: %r %r' % (text, rc, calls))
        S.reach('rejected')
    else:
        S.check(rc == 0 and len(calls) == 1 and calls[0][0] == ('pathx' if verb == 'q' else 'path'),
                lambda: '%r: %r %r' % (text, rc, calls))
        got = calls[0][1]
        S.check(len(got) > 0 and not got.startswith('"') and tree.resolve(got) is want,
                lambda: '%r delivers %r' % (text, got))
        S.reach('accepted')


def body(top, sub, parts, width, verb):
    def f(S, cli):
        tree = forest(S, top, sub)
        text = path_text(S, parts, width)
        inside(S, text)
        with Mounted(S, tree):
            judge(S, cli, tree, text, verb)
    return f


def free(width):
    """Any text over letters, dots and slashes."""
    def f(S, cli):
        tree = forest(S, [(1, 1)], [])
        text = S.str('text', 1, width, PATHCH)
        inside(S, text)
        with Mounted(S, tree):
            judge(S, cli, tree, text, 'p')
    return f


def signs(S, cli):
    """Names and paths of any printable characters."""
    name = S.str('name', 1, 2, NAMECH)
    other = S.str('other', 1, 1, NAMECH)
    text = S.str('text', 1, 2, NAMECH)
    S.assume(name != '.' and name != '..' and other != '.' and text != '..' and name != other)
    kind = S.pick('kind', ['file', 'dir'])
    tree = Tree([[name, Node(kind)], [other, Node('dir', [[name, Node(kind)]])]])
    if S.bool('below'):
        text = other + '/' + text
    with Mounted(S, tree):
        judge(S, cli, tree, text, 'p')


def change(parts):
    """The same path before and after a change of the file system, on one command line object."""
    def f(S, cli):
        tree = forest(S, [(1, 1)], [])
        name = S.str('name', 1, 1, LETTER)
        text = path_text(S, parts, 1, ('',))
        inside(S, text)
        with Mounted(S, tree) as m:
            judge(S, cli, tree, text, 'p')
            if S.bool('complete'):
                drive(cli.match(['p', '"' + text], dry_run=True, last_token_complete=False))
            what = S.pick('change', ['add file', 'add directory', 'remove', 'replace'])
            if what == 'remove':
                tree.cwd.entries.clear()
            elif what == 'replace':
                n, c = tree.cwd.entries[0]
                tree.cwd.entries[0][1] = Node('file' if c.kind == 'dir' else 'dir')
            else:
                S.assume(tree.cwd.child(name) is None)
                tree.cwd.entries.append([name, Node('file' if what == 'add file' else 'dir')])
            m.refresh()
            judge(S, cli, tree, text, 'p')
    return f


def completions(top, sub, parts, width, signs=False):
    def f(S, env):
        from nessaid_cli.tokens import PathToken
        if signs:
            name = S.str('name', 1, 2, NAMECH)
            S.assume(name != '.' and name != '..')
            tree = Tree([[name, Node(S.pick('kind', ['file', 'dir']))]])
            text = S.str('text', 0, width, NAMECH)
        else:
            tree = forest(S, top, sub)
            text = path_text(S, parts, width) if parts else S.str('text', 0, width, PATHCH)
        inside(S, text)
        S.assume('//' not in text)
        cut = text.rfind('/') + 1
        base, last = text[:cut], text[cut:]
        S.assume(last != '.' and last != '..')
        t = PathToken('P')
        with Mounted(S, tree):
            n, got = drive(t.complete('"' + text))
            at = tree.resolve(base)
            S.observe('offered', set(got))
            want = [] if at is None or at.kind != 'dir' else [name for name, c in at.entries if name.startswith(last)]
            for g in got:
                S.check(g.startswith('"' + text), lambda: '%r: offered %r' % (text, got))
                p = g[1:]
                if p.endswith('"'):
                    p = p[:-1]
                if text == '' and p in ('.', '..', '/'):
                    continue
                if p == base and last == '':
                    continue                       # the directory itself
                if p.endswith('/'):
                    p = p[:-1]
                    n = at.child(p[cut:]) if at is not None else None
                    S.check(n is not None and n.kind == 'dir', lambda: '%r: offered %r' % (text, got))
                S.check(any(p[cut:] == w for w in want), lambda: '%r: offered %r, entries %r' % (text, got, want))
            for w in want:
                S.check(any(g == '"' + base + w or g == '"' + base + w + '"' for g in got),
                        lambda: '%r: offered %r, entries %r' % (text, got, want))
            if want:
                S.reach('offers')
            S.check((len(got) == 0) == (at is None or (not want and last != '')), lambda: '%r: offered %r' % (text, got))
    return f


def cases(tier):
    q = tier == 'quick'
    both = ('accepted', 'rejected')
    k = 2 if q else 3
    out = [
        Case('two entries', setup, body([(1, 2), (1, 1)], [], k, 2, 'q'), 'two entries of any names of 1..2 letters and any kind, any relative path of up to %d parts' % k, both),
        Case('nested', setup, body([(1, 1)], [(1, 1)], 3, 1, 'p'), 'one entry with an entry of its own, any relative path of up to 3 parts', both),
        Case('free', setup, free(4 if q else 5), 'one entry, any path of up to %d letters, dots and slashes' % (4 if q else 5), both),
        Case('signs', setup, signs, 'names and paths of 1..2 printable characters or letters with accents, without quotes, slashes and * ? [ ]', both),
        Case('change', setup, change(k), 'a change of the file system between two lines', both),
        Case('completions of signs', lambda: None, completions([], [], 0, 2 if q else 3, True), 'one entry of 1..2 printable characters, any typed text of up to %d printable characters' % (2 if q else 3), ('offers',)),
        Case('completions', lambda: None, completions([(1, 2), (1, 2)], [], 0, 3 if q else 4), 'two entries, any typed text of up to %d characters' % (3 if q else 4), ('offers',)),
        Case('nested completions', lambda: None, completions([(1, 1)], [(1, 2), (1, 1)], 2 if q else 3, 1), 'one entry with two entries of its own', ('offers',)),
    ]
    return out
