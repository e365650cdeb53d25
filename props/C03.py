"""C03: vertical whitespace; nothing is lost or reordered by the checker."""
from asterisklint.config import ConfigParser
from asterisklint.configobj import EmptyLine
from asterisklint.configws import VerticalSpaceWarner
from asterisklint.file import FileReader
from props.common import MemFile, fresh, raised

BOUNDS = {
    'quick': 'files of 0..7 lines, each a blank, a comment, a section header '
             'or a setting; runs of 0..4 blanks between sections of 1..4 '
             'settings; an include at any line of a 3-line file, of a 3-line '
             'file; runs of up to 12 blanks and 12 settings; two includes, '
             'one after the other or one in the other, in files of 3 lines; '
             'files that end in up to 9 blanks and comments and an include',
    'thorough': 'files of 0..8 lines; includes of 4 lines in 4 lines',
}
OUTSIDE = 'files that begin with an include; ' \
    'where exactly blank lines of an including file are passed on ' \
    'while an included file is being read; longer files'
COVERS = ('bof', 'eof', 'context', 'varset', 'tight')

TEXT = {'blank': b'\n', 'comment': b';c\n', 'section': b'[s]\n',
        'setting': b'a=b\n', 'include': b'#include f\n'}
RULES = ('W_WSV_BOF', 'W_WSV_EOF', 'H_WSV_CTX_BETWEEN',
         'H_WSV_VARSET_BETWEEN')


class Plain(ConfigParser, FileReader):
    pass


class Checked(VerticalSpaceWarner, ConfigParser, FileReader):
    pass


def read(cls, files):
    def opener(path):
        return MemFile(path, files[path])
    reader = cls(opener=opener)
    reader.include('m')
    return [(type(e).__name__, e.where.filename, e.where.lineno)
            for e in reader]


def spec(kinds, fname, eof):
    """The messages for one file, from its own lines alone."""
    out = []

    def say(name, lineno):
        out.append((name, fname, lineno))
    settings = 0            # in the current section
    run = 0                 # length of the current run of blanks
    start = True            # only blanks seen so far
    gap = 0                 # blanks and comments since the last element
    pend = []               # (length, last line) of the runs in this gap
    lineno = 0
    before = None
    for kind in kinds + ['end']:
        lineno += 1
        if kind == 'include':
            continue
        prev, before = before, kind
        if kind == 'blank':
            if not run:
                first_of_run = lineno
            run += 1
            gap += 1
            last = lineno
            continue
        if run:
            pend.append((run, last, first_of_run))
            run = 0
        if kind == 'comment':
            gap += 1
            if not pend and start:
                pend.append((0, 0, 0))
            continue
        if kind == 'end':
            tail = None
            if prev == 'blank':
                tail = pend.pop()
            for n, l, first in pend:
                if n > 2:
                    say('H_WSV_CTX_BETWEEN', l)
            if tail and eof:
                say('W_WSV_EOF', tail[1])
            break
        if kind == 'section':
            name, most, least = 'H_WSV_CTX_BETWEEN', 2, int(settings > 2)
            settings = 0
        else:
            name, most, least = 'H_WSV_VARSET_BETWEEN', 1, 0
            settings += 1
        if gap < least:
            say(name, lineno)
        else:
            if start and pend and pend[0][0]:
                say('W_WSV_BOF', pend[0][2])
                pend.pop(0)
            for n, l, first in pend:
                if n > most:
                    say(name, l)
        start = False
        pend = []
        gap = 0
    return sorted(out)


def verdict(ctx, files, want):
    plain = read(Plain, files)
    fresh()
    checked = read(Checked, files)
    got = [m for m in raised() if m[0] in RULES]
    ctx.observe('got', got)
    ctx.observe('checked', checked)
    ctx.check([e for e in checked if e[0] != 'EmptyLine'] ==
              [e for e in plain if e[0] != 'EmptyLine'],
              'sections and settings pass unchanged', (checked, plain))
    ctx.check(len(set(checked)) == len(checked), 'nothing is passed twice')
    ctx.check(all(e in plain for e in checked), 'nothing is invented')
    for m in got:
        if m[0] == 'W_WSV_BOF':
            ctx.cover('bof')
        elif m[0] == 'W_WSV_EOF':
            ctx.cover('eof')
        elif m[0] == 'H_WSV_CTX_BETWEEN':
            ctx.cover('context')
        else:
            ctx.cover('varset')
    ctx.check(sorted(got) == sorted(want), 'vertical space messages',
              (got, want))
    return plain, checked


def one(ctx, n):
    fresh()
    kinds = [ctx.choice('l%d' % i, ['blank', 'comment', 'section', 'setting'])
             for i in range(n)]
    files = {'m': [TEXT[k] for k in kinds]}
    plain, checked = verdict(ctx, files, spec(kinds, 'm', True))
    ctx.check(plain == checked, 'order of a single file')


def runs(ctx, settings, nblank):
    """[s] settings gap [s] setting gap"""
    fresh()
    gap1 = [ctx.choice('g%d' % i, ['blank', 'comment'])
            for i in range(nblank)]
    kinds = ['section'] + ['setting'] * settings + gap1 + \
        [ctx.choice('next', ['section', 'setting'])]
    if nblank == 0 and settings > 2 and kinds[-1] == 'section':
        ctx.cover('tight')
    files = {'m': [TEXT[k] for k in kinds]}
    plain, checked = verdict(ctx, files, spec(kinds, 'm', True))
    ctx.check(plain == checked, 'order of a single file')


def many(ctx, settings, nblank):
    fresh()
    kinds = ['section'] + ['setting'] * settings + ['blank'] * nblank
    at = ctx.choice('at', list(range(len(kinds))))
    kinds[at] = ctx.choice('kind', ['blank', 'comment', 'section', 'setting'])
    if ctx.choice('more', [False, True]):
        kinds = kinds + ['section'] + ['setting'] * settings + ['section']
    plain, checked = verdict(ctx, {'m': [TEXT[k] for k in kinds]},
                             spec(kinds, 'm', True))
    ctx.check(plain == checked, 'order of a single file')


def include(ctx, n, m):
    fresh()
    at = ctx.choice('at', list(range(n)))
    outer = [ctx.choice('o%d' % i, ['blank', 'section', 'setting'])
             for i in range(n - 1)]
    outer = outer[:at] + ['include'] + outer[at:]
    inner = [ctx.choice('i%d' % i, ['blank', 'section', 'setting'])
             for i in range(m)]
    files = {'m': [TEXT[k] for k in outer], 'f': [TEXT[k] for k in inner]}
    # The checker sees elements only: the includer is known to have ended
    # when the included file was the last thing in it.
    ctx.assume(at > 0 or n == 1)
    want = spec(outer, 'm', at < n - 1 or m == 0)
    if m:
        want = want + spec(inner, 'f', True)
    verdict(ctx, files, want)


def tail(ctx, nblank, nested):
    """The including file ends in blanks, comments and the include."""
    fresh()
    rest = ['blank'] * nblank + ['comment'] + ['blank'] * nblank
    rest[ctx.choice('at', list(range(len(rest))))] = ctx.choice(
        'kind', ['blank', 'comment', 'setting', 'section'])
    inner = [ctx.choice('i%d' % i, ['blank', 'comment', 'setting', 'section'])
             for i in range(2)] + ['setting']
    outer = ['section', 'setting'] + rest + ['include']
    kinds = {'m': outer, 'f': inner}
    if nested:
        kinds = {'m': outer, 'f': ['setting'] + rest + ['include'],
                 'g': inner}
    text = {}
    for name in kinds:
        text[name] = [b'#include g\n' if (k == 'include' and name == 'f')
                      else TEXT[k] for k in kinds[name]]
    want = []
    for name in kinds:
        want += spec(kinds[name], name, kinds[name][-1] != 'include')
    verdict(ctx, text, want)


def two(ctx, nested, at, more):
    """Two files are included, each with a judgement of its own."""
    fresh()
    lines = {'m': ['setting', 'section', 'blank'],
             'f': ['blank', 'setting', 'section'],
             'g': ['section', 'blank', 'setting']}
    for name in ('m', 'f', 'g'):
        for i in range(3):
            if name + str(i) in more:
                lines[name][i] = ctx.choice(name + str(i), [
                    'blank', 'section', 'setting'])
    end = ctx.choice('end', ['blank', 'setting'])
    lines['g'] = lines['g'] + [end] * 2
    kinds = dict(lines)
    outer = 'f' if nested else 'm'
    kinds['m'] = lines['m'][0:at] + ['include'] + lines['m'][at:]
    kinds[outer] = kinds[outer][0:2 + at] + ['include'] + \
        kinds[outer][2 + at:]
    text = {}
    for name in kinds:
        refs = [b'#include f\n', b'#include g\n']
        if name == 'f':
            refs = refs[1:]
        text[name] = [refs.pop(0) if k == 'include' else TEXT[k]
                      for k in kinds[name]]
    want = []
    for name in kinds:
        want += spec(kinds[name], name,
                     name == 'f' or kinds[name][-1] != 'include')
    verdict(ctx, text, want)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 9 if big else 8):
        out.append(('one%d' % n, one, {'n': n}))
    for s in range(0, 5):
        for b in range(0, 6 if big else 5):
            out.append(('runs%d-%d' % (s, b), runs,
                        {'settings': s, 'nblank': b}))
    for s in (1, 5, 12):
        for b in (6, 12):
            out.append(('long%d-%d' % (s, b), many, {'settings': s,
                                                     'nblank': b}))
    for nested in (False, True):
        for nblank in range(0, 5):
            out.append(('tail%d-%d' % (nested, nblank), tail,
                        {'nested': nested, 'nblank': nblank}))
        for at in (1, 2):
            for i, more in enumerate(('m0 m1 m2', 'f0 f1 f2', 'g0 g1 g2',
                                      'm2 f0 f2', 'm1 f2 g0', 'm2 g0 g2')):
                out.append(('two%d-%d-%d' % (nested, at, i), two, {
                    'nested': nested, 'at': at, 'more': more}))
    for n in range(1, 5 if big else 4):
        for m in range(0, 5 if big else 4):
            out.append(('include%d-%d' % (n, m), include, {'n': n, 'm': m}))
    return out
