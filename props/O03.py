"""O03: func_odbc-annotate shows all functions and their statements."""
from importlib import import_module
from asterisklint import func_odbc
from asterisklint.defines import MessageDefManager
from props import dp
from props.common import fresh
from props.fs import FakeFs, ROOT

BOUNDS = {
    'quick': 'up to 3 functions with any of the statements; any statement '
             'of up to 4 and any section name or prefix of up to 3 '
             'characters; any line of up to 4 characters out of six in '
             'between; up to 3 columns with and without an alias',
    'thorough': 'statements of up to 6, names of up to 4 and lines of up to '
                '6 characters',
}
OUTSIDE = 'the work of sqlparse, which is not installed here: its format() ' \
    'is the identity and its parse() gives the tokens that it documents; ' \
    'more than three functions'
ASSUMPTIONS = ('sqlparse splits a SELECT into keyword, whitespace, '
               'identifiers, whitespace and FROM',)
COVERS = ('read', 'write', 'insert', 'semicolon', 'columns', 'alias',
          'no select', 'messages')


def setup():
    dp.warm()
    import_module('asterisklint.commands.func_odbc-annotate')


class Token(object):
    def __init__(self, kind, text):
        self.kind = kind
        self.text = text

    def __str__(self):
        return self.text

    def match(self, kind, value, regex=False):
        if kind is not self.kind:
            return False
        return True if regex else self.text == value


class Identifier(Token):
    def __init__(self, text, alias=None):
        Token.__init__(self, 'Name', text)
        self.alias = alias

    def get_alias(self):
        return self.alias


class Function(Identifier):
    pass


class IdentifierList(Token):
    def __init__(self, them):
        Token.__init__(self, 'List', '')
        self.them = them

    def get_identifiers(self):
        return iter(self.them)


class Keyword(object):
    DML = 'DML'


class tokens(object):
    Keyword = Keyword
    Whitespace = 'Whitespace'


class sql(object):
    Identifier = Identifier
    Function = Function
    IdentifierList = IdentifierList


class Statement(object):
    def __init__(self, tokens):
        self.tokens = tokens


class SqlParse(object):
    """What is used of the sqlparse module."""
    sql = sql
    tokens = tokens

    def __init__(self, selects=()):
        self.selects = selects      # [(query, tokens)]

    def format(self, query, **kwargs):
        return query

    def parse(self, query):
        for text, parts in self.selects:
            if text == query:
                return [Statement(parts)]
        return [Statement([Token('DML', 'UPDATE'), Token('Whitespace', ' '),
                           Identifier('x')])]


def run(ctx, lines, selects=()):
    """The output that follows the banner, as lines."""
    fresh()
    saved, muted = func_odbc.sqlparse, MessageDefManager.muted
    func_odbc.sqlparse = SqlParse(selects)
    command = import_module('asterisklint.commands.func_odbc-annotate')
    try:
        with FakeFs({'f.conf': lines}):
            status = command.main([ROOT + 'f.conf'], {})
    finally:
        func_odbc.sqlparse = saved
        MessageDefManager.muted = muted
    ctx.check(not status, 'status')
    ctx.check(ctx.output() == '', 'no messages', (ctx.output(),))
    out = ctx.output('out')
    ctx.check(out[-1:] == '\n', 'ends in a newline')
    return out.split('\n')[0:-1]


def expected(functions):
    """[(name, {kind: (statement, columns)})]"""
    out = []
    for name, statements in functions:
        out += ['-- ' + name, '-- .']
        for kind in ('insert', 'read', 'write'):
            if kind not in statements:
                continue
            text, columns = statements[kind]
            out.append('-- FUNCTION TYPE: ' + kind)
            if columns:
                out.append('-- COLUMNS:')
                for i, c in enumerate(columns):
                    out.append('-- %2d. ' % (i + 1) + c)
            out.append(text if text[-1:] == ';' else text + ';')
        out.append('')
    return out


def judge(ctx, lines, functions, selects=()):
    got = run(ctx, lines, selects)
    want = expected(functions)
    ctx.observe('lines', got)
    ctx.check(len(got) >= len(want) and
              got[len(got) - len(want):] == want, 'shown', (got, want))
    for line in got[0:len(got) - len(want)]:
        ctx.check(line == '' or line[0:3] == '-- ', 'banner', (line,))
    for name, statements in functions:
        for kind in statements:
            ctx.cover(kind)


KEYS = {'readsql': 'read', 'writesql': 'write', 'insertsql': 'insert',
        'read': 'read', 'write': 'write'}
SETS = [('readsql',), ('writesql',), ('read', 'write'),
        ('readsql', 'writesql'), ('writesql', 'insertsql'),
        ('writesql', 'insertsql', 'readsql'), ('readsql', 'insertsql'),
        ('dsn', 'write'), ('dsn',), ('insertsql',),
        ('readsql-', 'writesql-', 'read', 'write'),
        ('readsql-', 'writesql', 'insertsql-', 'write-')]


def several(ctx, n):
    """All functions, in the order of the file."""
    lines, functions = [], []
    for i in range(n):
        name = 'ZAM'[i]
        lines.append(('[%s]\n' % name).encode('ascii'))
        statements = {}
        for k in ctx.choice('keys%d' % i, SETS):
            # A minus: it is there, but it is empty.
            text = '' if k[-1] == '-' else 'q%s%d' % (k, i)
            k = k.strip('-')
            lines.append((k + '=' + text + '\n').encode('ascii'))
            if k in KEYS and text:
                statements[KEYS[k]] = (text, [])
        functions.append(('ODBC_' + name, statements))
    judge(ctx, lines, functions)


def statement(ctx, n, key):
    """Any statement, with a semicolon of its own or not."""
    text = ctx.str('text', n, 'printable:-\\')
    ctx.assume(text.strip(' ') == text)
    stop = ctx.bool('stop')
    lines = ['[A]\n', key + '=']
    for c in text:
        lines[1] += '\\;' if c == ';' else c
    if stop:
        lines[1] += '\\;'
        text += ';'
    lines[1] += '\n'
    ctx.assume(text != '' and text[0] != '>')
    if KEYS[key] == 'read':     # sqlparse wants one statement here
        ctx.assume(text.find(';') in (-1, len(text) - 1))
    if text[-1] == ';':
        ctx.cover('semicolon')
    judge(ctx, [i.encode('ascii') for i in lines],
          [('ODBC_A', {KEYS[key]: (text, [])})])


def named(ctx, name, prefix):
    name = ctx.str('name', name, 'printable:-[]; \\')
    lines = ['[' + name + ']\n']
    full = 'ODBC_' + name
    if prefix is not None:
        prefix = ctx.str('prefix', prefix, 'aZ_1')
        lines.append('prefix=' + prefix + '\n')
        full = (prefix or 'ODBC') + '_' + name
    lines.append('readsql=x\n')
    judge(ctx, [i.encode('ascii') for i in lines],
          [(full, {'read': ('x', [])})])


def between(ctx, n):
    """Whatever else is there: no messages, and nothing of it is shown."""
    line = ctx.str('line', n, 'a=>;#\t')
    ctx.assume(line[0:1] != '#')
    ctx.cover('messages')
    judge(ctx, [b'[A]\n', b'writesql=x\n', (line + '\n').encode('ascii'),
                b'readsql=y\n'],
          [('ODBC_A', {'write': ('x', []), 'read': ('y', [])})])


def columns(ctx, n):
    """The columns of a SELECT, by alias if they have one."""
    them, names, texts = [], [], []
    for i in range(n):
        text = ctx.str('c%d' % i, 1, 'printable:- ;\\')
        alias = ctx.bool('alias%d' % i) and ctx.str('a%d' % i, 1, 'xyz')
        them.append(ctx.choice('kind%d' % i, [Identifier, Function])(
            text, alias or None))
        names.append(alias or text)
        if alias:
            ctx.cover('alias')
    table = ctx.bool('from')
    parts = [Token('DML', 'SELECT'), Token('Whitespace', ' '),
             them[0] if n == 1 else IdentifierList(them)]
    query = 'SELECT q'
    if table:
        query += ' FROM t'
        parts += [Token('Whitespace', ' '), Token(Keyword, 'FROM'),
                  Token('Whitespace', ' '), Identifier('t')]
    select = ctx.bool('select')
    key = ctx.choice('key', ['readsql', 'read', 'writesql'])
    ctx.cover('columns' if select else 'no select')
    judge(ctx, [b'[A]\n', (key + '=' + query + '\n').encode('ascii')],
          [('ODBC_A', {KEYS[key]: (
              query, names if select and KEYS[key] == 'read' else [])})],
          [(query, parts)] if select else [])


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 4):
        out.append(('several%d' % n, several, {'n': n}))
    for key in sorted(KEYS):
        for n in range(0, 7 if big else 5):
            out.append(('statement-%s%d' % (key, n), statement,
                        {'n': n, 'key': key}))
    for name in range(1, 5 if big else 4):
        for prefix in (None, 0, 1, 2, 3):
            out.append(('named%d-%s' % (name, prefix), named,
                        {'name': name, 'prefix': prefix}))
    for n in range(0, 7 if big else 5):
        out.append(('between%d' % n, between, {'n': n}))
    for n in range(1, 4):
        out.append(('columns%d' % n, columns, {'n': n}))
    return out
