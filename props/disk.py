"""A file system of the harness that can be written, that fails or stops at
any operation."""
import builtins
import errno
import os
import stat
import tempfile
from props.fs import ROOT

CWD = ROOT + 'cwd'


class Stopped(BaseException):
    """The process was killed."""


class Node(object):
    def __init__(self, data, mode=0o644, uid=0, gid=0):
        self.data = data        # bytes, or str for the target of a link
        self.mode = mode
        self.uid = uid
        self.gid = gid


class Reader(object):
    def __init__(self, disk, path, data):
        self.disk = disk
        self.name = path
        self.data = data
        self.at = 0
        self.closed = False

    def read(self, n=-1):
        self.disk.step('read')
        end = len(self.data) if n is None or n < 0 else self.at + n
        out = self.data[self.at:end]
        self.at += len(out)
        return out

    def readline(self):
        self.disk.step('read')
        end = self.data.find(b'\n', self.at)
        end = len(self.data) if end < 0 else end + 1
        out = self.data[self.at:end]
        self.at = end
        return out

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False


class Writer(Reader):
    """What is written is in the file when it is flushed or closed."""

    def __init__(self, disk, path):
        Reader.__init__(self, disk, path, b'')
        self.node = disk.nodes[path]
        self.pending = b''

    def write(self, data):
        self.disk.step('write')
        self.pending += data
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self.disk.step('flush')
        self.node.data += self.pending
        self.pending = b''

    def fileno(self):
        return 1000

    def close(self):
        if not self.closed:
            self.closed = True
            if self.disk.stopped:
                return
            self.node.data += self.pending
            self.pending = b''
            self.disk.step('close')


class Disk(object):
    PATCH = ('stat', 'lstat', 'readlink', 'chown', 'chmod', 'rename',
             'replace', 'unlink', 'remove', 'fsync', 'getcwd')

    def __init__(self, nodes, fault=-1, kill=False):
        self.nodes = dict((ROOT + k, v) for k, v in nodes.items())
        self.left = fault
        self.kill = kill
        self.stopped = False
        self.failed = False
        self.temps = []
        self.log = []

    def step(self, what):
        """Fail here?"""
        if self.stopped:
            raise Stopped()
        self.log.append(what)
        if self.left == 0:
            self.left = -1
            self.failed = True
            if self.kill:
                self.stopped = True
                raise Stopped()
            raise OSError(errno.EIO, 'Input/output error')
        self.left -= 1

    def full(self, path):
        assert isinstance(path, str), path
        parts = []
        for p in (path if path[0:1] == '/' else CWD + '/' + path).split('/'):
            if p == '..':
                parts = parts[0:-1]
            elif p and p != '.':
                parts.append(p)
        path = '/' + '/'.join(parts)
        assert (path + '/').startswith(ROOT), path
        return path

    def node(self, path, follow=True):
        full = self.full(path)
        for k in range(8):
            if full not in self.nodes:
                raise FileNotFoundError(errno.ENOENT, 'No such file', path)
            n = self.nodes[full]
            if not follow or not isinstance(n.data, str):
                return n
            full = self.full(os.path.join(os.path.dirname(full), n.data))
        raise OSError(errno.ELOOP, 'Too many links', path)

    def elsewhere(self, path):
        return type(path) is str and path[0:1] == '/' and \
            not (path + '/').startswith(ROOT)

    def open(self, path, mode='r', *args, **kwargs):
        if self.elsewhere(path):
            assert mode in ('r', 'rb'), mode
            return self._open(path, mode, *args, **kwargs)
        self.step('open')
        if mode == 'wb':
            self.node(path)     # Must be there already.
            self.node(path).data = b''
            full = self.full(path)
            assert not isinstance(self.nodes[full].data, str)
            return Writer(self, full)
        assert mode == 'rb', mode
        return Reader(self, path, self.node(path).data)

    def temp(self, mode='w+b', *args, **kwargs):
        assert mode in ('wb', 'w+b'), mode
        self.step('temp')
        dir_ = self.full(kwargs.get('dir') or '/tmp')
        if dir_ + '/' != ROOT and not [
                p for p in self.nodes if p.startswith(dir_ + '/')]:
            raise FileNotFoundError(errno.ENOENT, 'No such dir', dir_)
        name = dir_ + '/tmp%d' % len(self.temps)
        self.temps.append(name)
        self.nodes[name] = Node(b'', 0o600, 7, 7)
        out = Writer(self, name)
        assert kwargs.get('delete') is False
        return out

    def stat(self, path, *args, **kwargs):
        if self.elsewhere(path):
            return dict(self.saved)['stat'](path, *args, **kwargs)
        follow = kwargs.get('follow_symlinks', True)
        full = self.full(path)
        if [p for p in self.nodes if p.startswith(full + '/')] or \
                full == CWD:
            return os.stat_result([stat.S_IFDIR | 0o755] + [0] * 9)
        n = self.node(path, follow)
        if follow:
            self.step('stat')
        if isinstance(n.data, str):
            return os.stat_result([stat.S_IFLNK | 0o777] + [0] * 9)
        return os.stat_result([stat.S_IFREG + n.mode, 0, 0, 1, n.uid, n.gid,
                               len(n.data), 0, 0, 0])

    def kind(self, path, follow):
        try:
            mode = self.stat(path, follow_symlinks=follow).st_mode
        except OSError:
            return None
        for kind in (stat.S_IFLNK, stat.S_IFREG, stat.S_IFDIR):
            if kind <= mode and mode < kind + 0o10000:
                return kind

    def islink(self, path):
        return self.kind(path, False) == stat.S_IFLNK

    def isfile(self, path):
        return self.kind(path, True) == stat.S_IFREG

    def isdir(self, path):
        return self.kind(path, True) == stat.S_IFDIR

    def lstat(self, path, *args, **kwargs):
        return self.stat(path, follow_symlinks=False)

    # (Looking at links does not fail.)
    def readlink(self, path, *args, **kwargs):
        n = self.node(path, False)
        if not isinstance(n.data, str):
            raise OSError(errno.EINVAL, 'Invalid argument', path)
        return n.data

    def chown(self, path, uid, gid, **kwargs):
        self.step('chown')
        n = self.node(path)
        n.uid, n.gid = uid, gid
        # As Linux does, for root, too.
        if n.mode % 0o10000 >= 0o4000:
            n.mode -= 0o4000
        if n.mode % 0o4000 >= 0o2000 and n.mode % 0o20 >= 0o10:
            n.mode -= 0o2000

    def chmod(self, path, mode, **kwargs):
        self.step('chmod')
        self.node(path).mode = mode % 0o10000

    def rename(self, src, dst, **kwargs):
        self.step('rename')
        n = self.node(src, False)
        src, dst = self.full(src), self.full(dst)
        assert src.rpartition('/')[0] == dst.rpartition('/')[0], \
            'maybe not on one device'
        del self.nodes[src]
        self.nodes[dst] = n
        if self.kill:
            self.step('renamed')

    replace = rename

    def unlink(self, path, **kwargs):
        # That does not fail.
        if self.stopped:
            raise Stopped()
        self.node(path, False)
        del self.nodes[self.full(path)]

    remove = unlink

    def fsync(self, fd):
        self.step('fsync')

    def getcwd(self):
        return CWD

    def __enter__(self):
        self.saved = [(name, getattr(os, name)) for name in self.PATCH]
        for name in self.PATCH:
            setattr(os, name, getattr(self, name))
        self.savedpath = [(name, getattr(os.path, name))
                          for name in ('islink', 'isfile', 'isdir')]
        for name, _ in self.savedpath:
            setattr(os.path, name, getattr(self, name))
        self._open, builtins.open = builtins.open, self.open
        from asterisklint.helper import mutator
        self._mine = getattr(mutator, 'NamedTemporaryFile', None)
        if self._mine is not None:
            mutator.NamedTemporaryFile = self.temp
        self._temp = tempfile.NamedTemporaryFile
        tempfile.NamedTemporaryFile = self.temp
        return self

    def __exit__(self, *exc):
        for name, value in self.saved:
            setattr(os, name, value)
        for name, value in self.savedpath:
            setattr(os.path, name, value)
        builtins.open = self._open
        tempfile.NamedTemporaryFile = self._temp
        if self._mine is not None:
            from asterisklint.helper import mutator
            mutator.NamedTemporaryFile = self._mine
        return False
