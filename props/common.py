"""Shared by the harnesses (instrumented for the symbolic run, plain for the
replay on the unmodified code)."""
from asterisklint.defines import MessageDef, MessageDefManager


class MemFile(object):
    """A binary file in memory: a list of lines."""
    mode = 'rb'

    def __init__(self, name, lines):
        self.name = name
        self.lines = lines
        self.closed = False

    def __iter__(self):
        return iter(self.lines)

    def close(self):
        self.closed = True


class Opener(object):
    """Stand-in for the file system: path -> lines."""

    def __init__(self, files):
        self.files = files      # list of (path, lines or exception)
        self.opened = []

    def __call__(self, path):
        self.opened.append(path)
        for name, lines in self.files:
            if name == path:
                if isinstance(lines, Exception):
                    raise lines
                return MemFile(path, lines)
        raise FileNotFoundError(2, 'No such file', path)


def fresh():
    """Forget all messages."""
    MessageDefManager.reset()


def raised():
    """[(name, filename, lineno)] of all messages, sorted by name, in order
    of occurrence within one name."""
    out = []
    for name in sorted(MessageDefManager.raised):
        for m in MessageDefManager.raised[name]:
            out.append((name, m.where.filename, m.where.lineno))
    return out


def raised_prev(which):
    """The same of those messages, with the line of the previous occurrence
    (or None)."""
    out = []
    for name in sorted(which):
        for m in msgs(name):
            out.append((name, m.where.filename, m.where.lineno,
                        m.previous and m.previous.lineno))
    return out


def tables(loader):
    """The tables of a loader, whatever they are called."""
    return [t for t in vars(loader).values() if isinstance(t, dict)]


def names():
    out = {}
    for name in MessageDefManager.raised:
        n = len(MessageDefManager.raised[name])
        if n:
            out[name] = n
    return out


def count(name):
    if name not in MessageDefManager.raised:
        return 0
    return len(MessageDefManager.raised[name])


def msgs(name):
    if name not in MessageDefManager.raised:
        return []
    return list(MessageDefManager.raised[name])


def lines_of(name):
    """Line numbers at which message `name` was raised."""
    return [m.where.lineno for m in msgs(name)]


def kind(name):
    """The message class of that name."""
    todo = [MessageDef]
    while todo:
        c = todo.pop()
        if c.__name__ == name:
            return c
        todo.extend(c.__subclasses__())
    raise KeyError(name)
