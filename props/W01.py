"""W01: the web service answers with the messages of that dialplan."""
import sys
import types
from importlib import import_module
from asterisklint import FileDialplanParser
from asterisklint.application import AppLoader
from asterisklint.defines import MessageDefManager
from props import dp
from props.common import fresh

BOUNDS = {
    'quick': 'any line of up to 5 characters out of nine, any application '
             'of up to 4 and any destination of up to 3 characters; any '
             'character of Unicode in a name; every sequence '
             'of two requests out of eight kinds, followed by another; any '
             'size up to 200000; three of six kinds of mistakes at any of '
             'six places among 15 lines; with and without threads',
    'thorough': 'lines of up to 7 characters, sequences of three requests',
}
OUTSIDE = 'falcon, the HTTP library, of which a stand-in with the parts in ' \
    'use takes the place; requests that are no JSON or lack the file; ' \
    'files that include themselves'
COVERS = ('message', 'none', 'too large', 'refused', 'after', 'jump',
          'threads', 'fine', 'many')


class HTTPError(Exception):
    def __init__(self, *args, **kwargs):
        Exception.__init__(self, *[str(a) for a in args])


class HTTPBadRequest(HTTPError):
    pass


class HTTPPayloadTooLarge(HTTPError):
    pass


class Api(object):
    def __init__(self, middleware=None, **kwargs):
        self.middleware = middleware or []
        self.routes = {}
        self.req_options = types.SimpleNamespace()

    def add_route(self, path, resource):
        self.routes[path] = resource


def before(action):
    def wrap(func):
        def call(self, req, resp, *args, **kwargs):
            action(req, resp, self, kwargs)
            return func(self, req, resp, *args, **kwargs)
        return call
    return wrap


def setup():
    dp.warm()
    falcon = types.ModuleType('falcon')
    falcon.API = falcon.App = Api
    falcon.before = before
    falcon.HTTPBadRequest = HTTPBadRequest
    falcon.HTTPPayloadTooLarge = falcon.HTTPRequestEntityTooLarge = \
        HTTPPayloadTooLarge
    sys.modules['falcon'] = falcon
    import_module('web.wsgi')
    MessageDefManager.muted = False


class Request(object):
    def __init__(self, text, size=0, threads=False):
        self.media = {'files': {'extensions.conf': text}}
        self.content_length = size
        self.env = {'wsgi.multithread': threads}


class Response(object):
    media = None
    body = None


def post(text, size=0, threads=False):
    api = import_module('web.wsgi').application
    MessageDefManager.muted = True
    req, resp = Request(text, size, threads), Response()
    for m in api.middleware:
        m.process_request(req, resp)
    api.routes['/dialplan-check'].on_post(req, resp)
    return resp.media


class Bytes(object):
    """A binary file of these bytes."""
    mode = 'rb'
    name = 'extensions.conf'

    def __init__(self, data):
        lines = data.split(b'\n')
        self.lines = [line + b'\n' for line in lines[0:-1]]
        if lines[-1]:
            self.lines.append(lines[-1])

    def __iter__(self):
        return iter(self.lines)

    def close(self):
        pass


def direct(text):
    """[(line, name, text of the message)]"""
    fresh()
    MessageDefManager.muted = True

    def opener(path):
        assert path == 'extensions.conf'
        return Bytes(text.encode('utf-8'))
    parser = FileDialplanParser(opener=opener)
    parser.include('extensions.conf')
    for dialplan in parser:
        dialplan.walk_jump_destinations()
    out = []
    for name in MessageDefManager.raised:
        for m in MessageDefManager.raised[name]:
            out.append((m.where.lineno, name,
                        m.message.format(**m.fmtkwargs)))
    fresh()
    return out


def judge(ctx, got, want):
    ctx.check(sorted(got['results']) == ['extensions.conf'], 'file')
    found = [(m['line'], m['class'], m['desc'])
             for m in got['results']['extensions.conf']]
    ctx.observe('found', found)
    ctx.check(sorted(found) == sorted(want), 'messages', (found, want))
    for a, b in zip(found, found[1:]):
        ctx.check(a[0] <= b[0], 'in order', found)
    ctx.cover('message' if want else 'none')
    ctx.check(isinstance(got['asterisklint']['version'], str), 'version')
    ctx.check(ctx.output() == '', 'nothing is printed')


HEAD = '[general]\n[globals]\n[a]\nexten => 1,1,NoOp\n'


def one(ctx, n, alpha, form):
    text = HEAD + form.replace('@', ctx.str('text', n, alpha))
    ctx.assume('#include' not in text)
    want = direct(text)
    if [m for m in want if 'GOTO' in m[1]]:
        ctx.cover('jump')
    judge(ctx, post(text), want)


ODD = ['same => n,Foo()', 'bad', 'exten => _1x,1,NoOp', '',
       'same => n,Goto(z,1,1)', 'exten => 2,7,Background(x)']


def many(ctx, count, step):
    """Messages all over a long text, also several of one kind."""
    places = [ctx.choice('at%d' % i, list(range(
        i * count // 3, (i + 1) * count // 3, step))) for i in range(3)]
    odd = [ctx.choice('odd%d' % i, ODD if i else ODD[:3]) for i in range(3)]
    text = HEAD
    for k in range(count):
        text += odd[places.index(k)] if k in places else (
            'same => n,NoOp(%s)' % ('x' * 9 * k))
        text += '\n'
    ctx.cover('many')
    judge(ctx, post(text), direct(text))


KINDS = [
    HEAD,
    HEAD + 'exten => 2,1,Foo()\n',
    HEAD + 'exten => 2,1,Goto(b,1)\nfoo',
    HEAD + 'exten => _x,1,NoOp(${FOO(1)})\n#include other.conf\n',
    '#include a\n[globals]\n',
    HEAD + 'exten => 2,1,BackGround(@)\n',
    HEAD + 'exten => 2,1,Background(@)\n',
    'bad\n[general]\n[a]\nexten => 1,1,Foo()\nexten => _@,,Bar\n',
]


def history(ctx, n, last):
    """Each answer is as if it were the only one."""
    texts = []
    for i in range(n):
        kind = ctx.choice('kind%d' % i, KINDS)
        texts.append(kind.replace('@', ctx.str('x%d' % i, 1, 'xX')))
    texts.append(KINDS[last].replace('@', 'x'))
    answers = []
    for t in texts:
        try:
            answers.append(post(t))
        except HTTPBadRequest:
            ctx.cover('refused')
            answers.append(None)
    for t, got in zip(texts, answers):
        if got is None:
            ctx.check('#include' in t, 'refused')
            continue
        ctx.check('#include' not in t, 'includes are refused')
        # As the first and only one.
        AppLoader().load_all()
        judge(ctx, got, direct(t))
    ctx.cover('after')


def size(ctx):
    size = ctx.int('size', 0, 200000)
    none = ctx.bool('none')
    threads = ctx.bool('threads')
    try:
        got = post(HEAD, None if none else size, threads)
    except HTTPPayloadTooLarge:
        ctx.cover('too large')
        ctx.check(not none and size > 65536, 'too large')
        return
    except HTTPBadRequest:
        ctx.cover('threads')
        ctx.check(threads, 'one thread is fine')
        return
    ctx.cover('fine')
    ctx.check((none or size <= 65536) and not threads, 'taken')
    judge(ctx, got, [])


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 8 if big else 6):
        out.append(('line%d' % n, one, {
            'n': n, 'alpha': 'a=>[],;#\n', 'form': '@'}))
    for n in range(0, 6 if big else 5):
        out.append(('app%d' % n, one, {
            'n': n, 'alpha': 'noOpx(', 'form': 'exten => 2,1,@(${x:})\n'}))
    for n in range(0, 5 if big else 4):
        out.append(('goto%d' % n, one, {
            'n': n, 'alpha': 'a12,', 'form': ' same => n,Goto(@)\nx'}))
    for n in range(1, 3 if big else 2):
        out.append(('uni%d' % n, one, {
            'n': n, 'alpha': 'bmpq:', 'form': 'exten => 2,1,N@(${x\n'}))
    for last in range(len(KINDS)):
        out.append(('history%d' % last, history, {
            'n': 3 if big else 2, 'last': last}))
    out.append(('many15', many, {
        'count': 15, 'step': 1 if big else 3}))
    out.append(('size', size, {}))
    return out
