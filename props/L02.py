"""L02: the command that is named is the command that is run."""
import importlib.util
import io
import sys
from asterisklint import main as cli
from props.fs import FakeFs, ROOT

BOUNDS = {
    'quick': 'any command of up to 3 characters (one of them anything in '
             'ASCII), commands in any two of three places (two directories '
             'of the path and that of the user), with or without an '
             'entrypoint; up to three options and arguments; descriptions '
             'of three words of ten lengths, any name of a file of up to 2 '
             'characters',
    'thorough': 'commands of up to 4 characters, names of files of up to 3 '
                'characters, four words',
}
OUTSIDE = 'what importlib does with the file; commands that raise when they ' \
    'are loaded; longer names; line ends in names; --version and --help'
COVERS = ('run', 'first wins', 'user', 'unknown', 'invalid', 'no entrypoint',
          'listed', 'not listed', 'listed once', 'wrapped', 'no help',
          'broken')
FIRST = 'abcdefghijklmnopqrstuvwxyz0123456789'


class Fake(object):
    """A module loaded from a file, and what was done with it."""

    def __init__(self, commands, path):
        self.path = path
        for name, doc, entry in commands:
            if path == ROOT + name:
                self.__doc__ = doc
                if entry:
                    self.main = self.run
        self.ran = []

    def run(self, args, envs):
        self.ran.append((args, envs))
        return 42


class Spec(object):
    def __init__(self, world, name, path):
        self.loader = self
        self.world = world
        self.path = path

    def exec_module(self, module):
        self.world.loaded.append(module)


class World(object):
    """Stands for importlib.util and the files of the commands."""

    def __init__(self, commands):
        self.commands = commands
        self.loaded = []

    def spec(self, name, path):
        return Spec(self, name, path)

    def module(self, spec):
        return Fake(self.commands, spec.path)

    def call(self, roots, args, envs):
        fs = FakeFs(dict((name, []) for name, doc, entry in self.commands))
        saved = (importlib.util.spec_from_file_location,
                 importlib.util.module_from_spec, sys.path, sys.argv)
        try:
            importlib.util.spec_from_file_location = self.spec
            importlib.util.module_from_spec = self.module
            sys.path = [ROOT + r for r in roots]
            sys.argv = ['prog']
            with fs:
                ret = cli.main(args, envs)
            self.argv = sys.argv
        finally:
            (importlib.util.spec_from_file_location,
             importlib.util.module_from_spec, sys.path, sys.argv) = saved
        return ret


def setup():
    saved, sys.stdout = sys.stdout, io.StringIO()
    try:
        for args in (['a', 'b'], ['ls']):
            World([('x/asterisklint/commands/a.py', 'Doc', True)]).call(
                ['x'], args, {'HOME': ROOT + 'x'})
    finally:
        sys.stdout = saved


def valid(name):
    return name != '' and name[0] in FIRST and all(
        [c in FIRST or c == '_' or c == '-' for c in name])


def run(ctx, n, kind):
    """Which command?"""
    if kind == 'any':
        name = ctx.str('any', 1, 'ascii:-\n') + ctx.str('name', n - 1, 'a_A')
        if ctx.bool('last'):
            name = name[1:] + name[0:1]
    else:
        name = ctx.str('name', n, kind)
    ctx.assume(name == '' or name[0] != '-')
    other = ctx.str('other', max(1, n), 'ab_-')
    places = ('home/.asterisklint', 'x', 'y')
    commands = []
    here = []
    for place in places:
        there = ctx.choice(place, ['none', 'name', 'other', 'no entry'])
        if there == 'none' or there != 'other' and (
                '/' in name or '\0' in name):
            # There is no such file.
            continue
        it = name if there != 'other' else other
        commands.append((place + '/asterisklint/commands/' + it + '.py',
                         'Doc', there != 'no entry'))
        if it == name:
            here.append(commands[-1])
    ctx.assume(name != 'ls' and len(commands) < 3)
    args = [name]
    if ctx.bool('option'):
        args.insert(0, '-v')
    if ctx.bool('arg'):
        args.append(ctx.choice('what', ['x', '-' + name, name]))
    rest = list(args)
    rest.remove(name)
    envs = {'HOME': ROOT + 'home', 'A': 'b'}
    world = World(commands)
    got = world.call(['x', 'y', 'z'], args, envs)
    ctx.observe('got', (got, [m.path for m in world.loaded]))
    if not valid(name) or not here or not here[0][2]:
        ctx.cover('invalid' if not valid(name) else 'unknown'
                  if not here else 'no entrypoint')
        ctx.check(got == 1, 'exit status', got)
        ctx.check([m.ran for m in world.loaded if m.ran] == [], 'not run')
        ctx.check(ctx.output() != '' and ctx.output('out') == '', 'message',
                  ctx.output())
        return
    ctx.cover('run')
    if len(here) > 1:
        ctx.cover('first wins')
    if here[0][0][0:4] == 'home':
        ctx.cover('user')
    ctx.check(len(world.loaded) == 1, 'one is loaded')
    ctx.check(world.loaded[0].path == ROOT + here[0][0], 'the right one')
    ctx.check(got == 42, 'its status', got)
    ctx.check(world.loaded[0].ran == [(rest, envs)], 'its arguments',
              world.loaded[0].ran)
    ctx.check(ctx.output() == '' and ctx.output('out') == '', 'quiet')
    ctx.check(world.argv[0] == 'prog ' + name, 'its name in the help')


def listed(ctx, n, end):
    """Any file: is it listed?"""
    names = [ctx.str('name0', n, 'aA_-.') + end,
             ctx.str('name1', n, 'ab1') + '.py']
    place = ctx.choice('place', ['x', 'y'])
    commands = []
    for p, name in (('x', names[0]), (place, names[1])):
        if (p, name) not in [c[3:] for c in commands]:
            commands.append((p + '/asterisklint/commands/' + name,
                             ctx.choice('doc' + str(len(commands)), [
                                 'Doc', '\nDoc\n', None]),
                             ctx.bool('entry' + str(len(commands))),
                             p, name))
    World([c[0:3] for c in commands]).call(['x', 'y'], ['ls'], {})
    want = {}
    for path, doc, entry, p, name in commands:
        if name[-3:] != '.py' or not valid(name[0:-3]):
            ctx.cover('not listed')
            continue
        name = name[0:-3]
        ctx.cover('listed once' if name in want else 'listed')
        if name not in want:
            want[name] = (p, doc, entry)
    where = None
    got = {}
    lines = ctx.output('out').split('\n')
    ctx.check(lines[0] == 'builtin:' and lines[1][0:5] == '  ls ', 'builtin')
    for line in lines[2:-2]:
        if line[0:4] == ROOT:
            where = line[len(ROOT)]
            ctx.check(line[len(ROOT) + 1:] == '/asterisklint/commands:',
                      'directory', line)
        elif line:
            ctx.check(line[0:2] == '  ', 'command', line)
            name = line[2:].split(' ')[0]
            ctx.check(name not in got, 'once', line)
            got[name] = (where, line[24:])
    ctx.observe('got', got)
    ctx.check(sorted(got) == sorted(want), 'commands', (got, want))
    for name in want:
        p, doc, entry = want[name]
        ctx.check(got[name][0] == p, 'place', (got, want))
        text = got[name][1]
        if not entry:
            ctx.cover('broken')
            ctx.check('error' in text, 'not usable', text)
        elif doc is None:
            ctx.cover('no help')
            ctx.check(text != '' and text != 'Doc', 'no help', text)
        else:
            ctx.check(text == 'Doc', 'help', text)


def words(ctx, n, lens):
    """The description, wrapped."""
    out = []
    text = ''
    for i in range(n):
        k = ctx.choice('len%d' % i, lens)
        out.append('abcd'[i] * k)
        text += out[-1] + ctx.choice('sep%d' % i, [' ', '\n    '])
    World([('x/asterisklint/commands/aa.py', text, True)]).call(
        ['x'], ['ls'], {})
    lines = ctx.output('out').split('\n')
    at = [i for i, t in enumerate(lines) if t[0:5] == '  aa ']
    ctx.check(len(at) == 1, 'there')
    lines = lines[at[0]:-3]
    rest = []
    for i, line in enumerate(lines):
        ctx.check(line[0:24] == ('  aa' if not i else '').ljust(24),
                  'indent', line)
        words = [w for w in line[24:].split(' ') if w]
        ctx.check(words, 'no empty lines', line)
        # Only a word that is too long itself.
        ctx.check(len(line) <= 80 or len(words) == 1, 'width', line)
        rest += words
        if i:
            ctx.cover('wrapped')
            # It would not have fit on the one before, or hardly.
            ctx.check(len(lines[i - 1]) + 1 + len(words[0]) > 76,
                      'wrapped too soon', (lines[i - 1], line))
    ctx.check(rest == out, 'words', (rest, out))


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 5 if big else 4):
        if n:
            out.append(('any%d' % n, run, {'n': n, 'kind': 'any'}))
        out.append(('run%d' % n, run, {'n': n, 'kind': 'ab_-/'}))
    for n in range(1, 4 if big else 3):
        for end in ('', '.py', '.pyc'):
            out.append(('listed%d%s' % (n, end), listed, {
                'n': n, 'end': end}))
    lens = [1, 20, 26, 27, 28, 53, 54, 55, 56, 80]
    out.append(('words', words, {'n': 4 if big else 3, 'lens': lens}))
    return out
