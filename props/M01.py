"""M01: messages: what is printed, where, and what is muted."""
import os
from asterisklint.defines import (
    DupeDefMixin, ErrorDef, HintDef, MessageDefManager, WarningDef)
from asterisklint.where import Where
from props.common import fresh

BOUNDS = {
    'quick': 'ALINT_IGNORE of up to 8 characters out of four against three '
             'names, any two items of up to three characters of a name of up to 33 characters and '
             'its neighbours; each place among up to 12 items; any file name and text of up to 2 and field '
             'of up to 3 characters, any line number; any line of up to 4 '
             'bytes out of eight and 55..70 bytes around the cut; up to 3 messages of two '
             'types with either muted',
    'thorough': 'ALINT_IGNORE of up to 10 characters; lines of up to 5 bytes',
}
OUTSIDE = 'names longer than 33 characters'
COVERS = ('muted', 'exact', 'prefix', 'printed', 'line', 'cut', 'previous',
          'all')


def make(name, base=ErrorDef, text='text', ignore=''):
    """A new kind of message, under that ALINT_IGNORE."""
    MessageDefManager.types.discard(name)
    saved = os.environ
    os.environ = {'ALINT_IGNORE': ignore}
    try:
        return MessageDefManager(name, (base,), {
            'message': text, '__module__': __name__, '__qualname__': name})
    finally:
        os.environ = saved
        MessageDefManager.types.discard(name)


def spelt(name, item):
    if item == name:
        return 'exact'
    if item[-1:] == '_' and name[0:len(item)] == item:
        return 'prefix'
    return None


def ignored(ctx, name, ignore, items):
    kind = make(name, ignore=ignore)
    muted = False
    for item in items:
        how = spelt(name, item)
        if how:
            ctx.cover(how)
            muted = True
    fresh()
    seen = []
    kind.add_callback(seen.append)
    msg = kind(Where('f', 7, b'x'))
    ctx.observe('muted', muted)
    ctx.cover('muted' if muted else 'printed')
    ctx.check(ctx.output() == ('' if muted else 'f:7 %s: text\n' % name),
              'printed unless ignored', (name, ignore, ctx.output()))
    ctx.check(bool(msg.muted) == muted, 'muted')
    ctx.check([m for m in seen] == [msg] and
              [m for m in MessageDefManager.raised[name]] == [msg],
              'recorded')


def free(ctx, name, n):
    ignore = ctx.str('ignore', n, 'E_A,')
    ignored(ctx, name, ignore, ignore.split(','))


def near(ctx, name):
    """Two items that are close to the name."""
    items = []
    for i in range(2):
        cut = ctx.choice('cut%d' % i, list(range(0, len(name) + 1)))
        items.append(name[0:cut] + ctx.str('c%d' % i, ctx.choice(
            'more%d' % i, [0, 1]), 'alnum:_ '))
    ignored(ctx, name, ','.join(items), items)


def many(ctx, n):
    """One of many items."""
    at = ctx.int('at', 0, n - 1)
    item = ctx.choice('item', ['E_AB', 'E_', 'E_A_', 'E_A', 'E_AB_', 'X'])
    items = ['W_%d' % i for i in range(n)]
    for i in range(n):
        if at == i:
            items[i] = item
    ignored(ctx, 'E_AB', ','.join(items), items)


def text(ctx, n, k):
    """The place and text of a message."""
    kind = make('E_AB', base=ctx.choice('base', [
        ErrorDef, WarningDef, HintDef]), text='got {a} and {b!r}.')
    fresh()
    filename = ctx.str('filename', n, 'text:')
    lineno = ctx.int('lineno', 1, 99999)
    a = ctx.str('a', k, 'text:')
    b = ctx.str('b', 2, 'x ')
    kind(Where(filename, lineno, b'x'), a=a, b=b)
    ctx.cover('printed')
    ctx.check(ctx.output() == filename + ':' + str(lineno) +
              ' E_AB: got ' + a + " and '" + b + "'.\n", 'text')


def shown(ctx, fill, n):
    """The line itself, and the previous occurrence."""
    kind = make('E_AB')
    fresh()
    line = b'x' * fill + ctx.bytes('line', n, 'xy\n\'"\\\xe9\0')
    MessageDefManager.show_line = bool(ctx.bool('show_line'))
    MessageDefManager.show_previous = bool(ctx.bool('show_previous'))
    has_previous = ctx.bool('has_previous')
    previous = Where('g', 3, b'y') if has_previous else None
    MessageDefManager.muted = bool(ctx.bool('muted'))
    try:
        kind(Where('f', 7, line), previous=previous)
        want = 'f:7 E_AB: text\n'
        if MessageDefManager.show_line:
            ctx.cover('line')
            show = repr(line)[1:]
            if len(show) + 1 > 64:
                ctx.cover('cut')
                show = show[0:63] + '...'
            want += '  => ' + show + '\n'
        if MessageDefManager.show_previous and has_previous:
            ctx.cover('previous')
            want += '    previous occurrence at g:3\n'
        if MessageDefManager.muted:
            ctx.cover('all')
            want = ''
    finally:
        MessageDefManager.show_line = False
        MessageDefManager.show_previous = False
        MessageDefManager.muted = False
    ctx.check(ctx.output() == want, 'shown', (ctx.output(), want))
    ctx.check(len(MessageDefManager.raised['E_AB']) == 1, 'recorded')


def several(ctx, n):
    """Each kind has its own mute; each message is printed once, in order,
    and a callback hears of its own kind only."""
    ignore = ctx.choice('ignore', ['', 'E_AB', 'W_', 'E_AB,W_AB', 'X', ','])
    kinds = [make('E_AB', ErrorDef, 'one', ignore),
             make('W_AB', WarningDef, 'two', ignore),
             make('E_ABC', ErrorDef, 'three', ignore)]
    heard = []
    kinds[1].add_callback(heard.append)
    fresh()
    want = ''
    second = []
    for i in range(n):
        k = ctx.choice('k%d' % i, [0, 1, 2])
        msg = kinds[k](Where('f', i + 1, b'x'))
        if k == 1:
            second.append(msg)
        line = 'f:%d %s\n' % (i + 1, ('E_AB: one', 'W_AB: two',
                                      'E_ABC: three')[k])
        mute = (k == 0 and 'E_AB' in ignore) or (k == 1 and 'W_' in ignore)
        if not mute:
            want += line
    ctx.check(ctx.output() == want, 'in order', (ctx.output(), want))
    ctx.check(heard == second, 'callback')


def dupes(ctx):
    """A message on a second occurrence comes with the first."""
    MessageDefManager.types.discard('E_AB')
    kind = MessageDefManager('E_AB', (DupeDefMixin, ErrorDef), {
        'message': 'text', '__module__': __name__, '__qualname__': 'E_AB'})
    MessageDefManager.types.discard('E_AB')
    fresh()
    with_ = ctx.bool('with')
    try:
        if with_:
            msg = kind(Where('f', 2, b''), previous=Where('f', 1, b''))
        else:
            kind(Where('f', 2, b''))
    except TypeError:
        ctx.check(not with_, 'refused')
    else:
        ctx.check(with_ and msg.previous.lineno == 1, 'previous')


def jobs(tier):
    big = tier != 'quick'
    out = [('dupes', dupes, {})]
    for name in ('E_A', 'E_AE', 'E_A_A'):
        for n in range(0, 11 if big else 9):
            out.append(('free%d%s' % (n, name), free,
                        {'n': n, 'name': name}))
        out.append(('near' + name, near, {'name': name}))
    for name in ('W_A_B_C_D_E_FG', 'H_DP_BAD_ORDER_OF_PRIO',
                 'E_APP_MISSING_REQUIRED_ARGUMENT_X', 'E_', 'W__', 'H_1_22'):
        out.append(('near' + name, near, {'name': name}))
    for n in (1, 5, 12):
        out.append(('many%d' % n, many, {'n': n}))
    for n in range(0, 3):
        for k in range(0, 4):
            out.append(('text%d%d' % (n, k), text, {'n': n, 'k': k}))
    for n in range(0, 6 if big else 5):
        out.append(('shown%d' % n, shown, {'fill': 0, 'n': n}))
    for fill in range(55, 69):
        out.append(('shown%d+1' % fill, shown, {'fill': fill, 'n': 1}))
    for n in range(0, 4):
        out.append(('several%d' % n, several, {'n': n}))
    return out
