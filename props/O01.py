"""O01: the keys of a function in func_odbc.conf."""
from asterisklint import FileFuncOdbcParser
from props.common import MemFile, fresh, msgs, raised_prev, names

BOUNDS = {
    'quick': 'any sequence of 1..3 keys out of fifteen in one function, up '
             'to 4 out of six over two functions; any one key of 3..10 '
             'characters around every known one; empty statements among '
             'them; any value of up to 4 '
             'characters out of five; any function name of up to 4 '
             'characters out of seven',
    'thorough': 'sequences of up to 4 keys; values of up to 6 and names of '
                'up to 6 characters',
}
OUTSIDE = 'longer sequences'
COVERS = ('E_CONF_KEY_INVALID', 'E_CONF_KEY_DUPE', 'W_CONF_KEY_LATE',
          'W_ODBC_LEGACY', 'W_ODBC_TAILSEMI', 'E_ODBC_NOSQL',
          'H_CONF_HAS_ARROW', 'W_ODBC_BADTOKENS', 'E_CONF_CTX_MISSING',
          'clean')
# configs/samples/func_odbc.conf.sample has them in this order.
PLACE = {'prefix': 0, 'synopsis': 1, 'dsn': 2, 'escapecommas': 3, 'mode': 4,
         'rowlimit': 5, 'readhandle': 6, 'writehandle': 7, 'readsql': 8,
         'writesql': 9, 'insertsql': 10, 'read': 11, 'write': 12}
KNOWN = sorted(PLACE, key=PLACE.get)
SQL = ('readsql', 'writesql', 'read', 'write')


def load(lines):
    """-> [(name, [(key, value)])]"""
    fresh()

    def opener(path):
        return MemFile(path, lines)
    parser = FileFuncOdbcParser(opener=opener)
    parser.include('f')
    return [f for f in parser]


class Model(object):
    def __init__(self):
        self.said = []
        self.functions = []

    def say(self, name, line, prev=None):
        self.said.append((name, 'f', line, prev))

    def open(self, name, line):
        self.functions.append((name, line, []))

    def key(self, key, value, line, arrow=False):
        if arrow:
            self.say('H_CONF_HAS_ARROW', line)
        if not self.functions:
            return self.say('E_CONF_CTX_MISSING', line)
        mine = self.functions[-1][2]
        place = [PLACE[k] for k in KNOWN if k == key]
        if not place:
            return self.say('E_CONF_KEY_INVALID', line)
        for k, v, at in mine:
            if k == key:
                return self.say('E_CONF_KEY_DUPE', line, at)
        if mine and PLACE[mine[-1][0]] > place[0]:
            self.say('W_CONF_KEY_LATE', line)
        key = KNOWN[place[0]]
        if key == 'read' or key == 'write':
            self.say('W_ODBC_LEGACY', line)
        if key in SQL or key == 'insertsql':
            if value[-1:] == ';':
                self.say('W_ODBC_TAILSEMI', line)
        mine.append((key, value, line))

    def end(self):
        for name, line, mine in self.functions:
            # ("was found, but there was no SQL to execute")
            if not [k for k, v, at in mine if k in SQL and v]:
                self.say('E_ODBC_NOSQL', line)


def verdict(ctx, lines, model):
    functions = load(lines)
    model.end()
    got = [(f.name, f.where.lineno,
            [(v.variable, v.value, v.where.lineno) for v in f])
           for f in functions]
    ctx.observe('got', got)
    ctx.check(got == model.functions, 'what is kept', (got, model.functions))
    mine = raised_prev(names())
    for m in mine:
        ctx.cover(m[0])
    if not mine:
        ctx.cover('clean')
    ctx.check(sorted(mine, key=order) == sorted(model.said, key=order),
              'messages', (mine, model.said))


def order(m):
    return (m[0], m[2])


def sequence(ctx, n, keys, spread=False, empty=False):
    model = Model()
    lines = [b'[A]\n']
    model.open('A', 1)
    at = ctx.choice('at', list(range(0, n + 1))) if spread else n
    for i in range(n):
        if i == at:
            lines.extend([b'\n', b'[B]\n'])
            model.open('B', len(lines))
        key = ctx.choice('key%d' % i, keys)
        value = 'x'
        if empty and key in SQL:
            value = ctx.choice('value%d' % i, ['x', ''])
        lines.append((key + '=' + value + '\n').encode('ascii'))
        model.key(key, value, len(lines))
    # (Whether an empty modern key hides the legacy one is up to it.)
    verdict(ctx, lines, model)
    for name, what in (('E_CONF_KEY_DUPE', 'dupe'),
                       ('E_CONF_KEY_INVALID', 'invalid'),
                       ('W_CONF_KEY_LATE', 'late')):
        for m in msgs(name):
            ctx.check(lines[m.where.lineno - 1].split(b'=')[0] ==
                      m.fmtkwargs['key'].encode('ascii'),
                      what + ': key in the message')


def spelt(ctx, known, cut):
    """A key that shares all but one or two characters with a known one."""
    a = ctx.str('a', 2, 'alpha:-=')
    key = known[0:cut] + a + known[cut + 2:]
    model = Model()
    model.open('A', 1)
    lines = [b'[A]\n', (key + '=x\n').encode('ascii')]
    model.key(key, 'x', 2)
    verdict(ctx, lines, model)


def meaning(text):
    """The value that process_text_line() makes of it."""
    out = ''
    for i in range(len(text)):
        if text[i] == ';':
            if i and text[i - 1] == '\\':
                out = out[0:-1] + ';'
                continue
            break
        out += text[i]
    return out.strip(' \t')


def valued(ctx, n, key):
    text = ctx.str('text', n, 'x;\\ =')
    sep = ctx.choice('sep', ['=', ' => '])
    value = meaning(text)
    ctx.assume(not (sep == '=' and value[0:1] == '='))
    ctx.assume(text[0] != ' ' and text[-1] != ' ')
    for i in range(1, n):
        # (Reported as W_WSH_COMMENT: F01.)
        ctx.assume(text[i] != ';' or text[i - 1] == ' ' or
                   text[i - 1] == '\\' or text[i - 1] == ';')
    ctx.assume(blanks_ok(text))
    model = Model()
    lines = [b'[A]\n', (key + sep + text + '\n').encode('ascii')]
    model.open('A', 1)
    model.key(key, value, 2, arrow=sep != '=')
    verdict(ctx, lines, model)


def blanks_ok(text):
    """No comment right behind a value."""
    for i in range(len(text)):
        if text[i] == ';' and not (i and text[i - 1] == '\\'):
            return i > 0 and text[i - 1] == ' '
    return True


def named(ctx, n):
    name = ctx.str('name', n, 'AZ09_a-\xe9')
    model = Model()
    model.open(name, 1)
    lines = [('[' + name + ']\n').encode('utf-8'), b'readsql=x\n']
    model.key('readsql', 'x', 2)
    if not proper(name):
        model.say('W_ODBC_BADTOKENS', 1)
    verdict(ctx, lines, model)
    for m in msgs('W_ODBC_BADTOKENS'):
        ctx.check(m.fmtkwargs['name'] == name, 'name in the message')


def proper(name):
    """A_B_C and ABC, but not _A or B_ or A__B or the empty name."""
    last = '_'
    for c in name:
        if c == '_':
            if last == '_':
                return False
        elif not ('A' <= c and c <= 'Z' or '0' <= c and c <= '9'):
            return False
        last = c
    return last != '_'


def orphan(ctx, n):
    """Keys before the first function."""
    model = Model()
    lines = []
    at = ctx.int('at', 0, n)
    for i in range(n + 1):
        if at == i:
            lines.append(b'[A]\n')
            model.open('A', len(lines))
        key = ctx.choice('key%d' % i, ['readsql', 'bogus'])
        lines.append((key + '=x\n').encode('ascii'))
        model.key(key, 'x', len(lines))
    verdict(ctx, lines, model)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 5 if big else 4):
        out.append(('seq%d' % n, sequence,
                    {'n': n, 'keys': KNOWN + ['bogus', 'Read']}))
    for n in range(1, 5):
        out.append(('two%d' % n, sequence, {'n': n, 'spread': True, 'keys': [
            'dsn', 'readsql', 'writesql', 'insertsql', 'write', 'bogus']}))
    for n in range(1, 4):
        out.append(('empty%d' % n, sequence, {
            'n': n, 'empty': True, 'spread': n < 3, 'keys': [
                'dsn', 'readsql', 'writesql', 'insertsql'] + (
                    ['read', 'write'] if n < 3 else [])}))
    for known in KNOWN:
        for cut in sorted(set((0, 1, len(known) - 2, len(known) - 1))):
            out.append(('spelt-%s-%d' % (known, cut), spelt,
                        {'known': known, 'cut': cut}))
    for n in range(1, 7 if big else 5):
        for key in ('readsql', 'write', 'insertsql', 'synopsis'):
            out.append(('value%d%s' % (n, key), valued,
                        {'n': n, 'key': key}))
    for n in range(0, 7 if big else 5):
        out.append(('named%d' % n, named, {'n': n}))
    for n in range(0, 3):
        out.append(('orphan%d' % n, orphan, {'n': n}))
    return out
