"""A file system of the harness: the files it lists exist, no other below
/fs does."""
import builtins
import errno
import os
import stat
from props.common import MemFile

ROOT = '/fs/'


class FakeFs(object):
    def __init__(self, files, here=False):
        self.files = files      # {path below ROOT: [bytes]}
        self.opened = []
        self.here = here        # Is ROOT the current directory?

    def _mine(self, path):
        """The path as it is below ROOT, if it is."""
        if isinstance(path, str):
            if path.startswith(ROOT):
                return path
            if self.here and path[0:1] != '/':
                return ROOT + (path[2:] if path[0:2] == './' else path)

    def _lines(self, path):
        for name in self.files:
            if path == ROOT + name:
                return self.files[name]
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                                path)

    def open(self, path, mode='r', *args, **kwargs):
        full = self._mine(path)
        if full is None:
            return self._open(path, mode, *args, **kwargs)
        assert mode == 'rb', mode
        lines = self._lines(full)
        self.opened.append(path)
        return MemFile(path, lines)

    def dirs(self):
        """The directories that there must be."""
        out = []
        for name in self.files:
            parts = (ROOT + name).split('/')
            for i in range(2, len(parts)):
                path = '/'.join(parts[0:i])
                if path not in out:
                    out.append(path)
        return out

    def listdir(self, path):
        full = self._mine(path)
        if full is None:
            return self._listdir(path)
        path = full
        return [name[len(path) + 1 - len(ROOT):] for name in self.files
                if (ROOT + name).rpartition('/')[0] == path]

    def stat(self, path, *args, **kwargs):
        full = self._mine(path)
        if full is None:
            return self._stat(path, *args, **kwargs)
        path = full
        if path in self.dirs():
            return os.stat_result([stat.S_IFDIR | 0o755] + [0] * 9)
        self._lines(path)
        return os.stat_result([stat.S_IFREG | 0o644] + [0] * 9)

    def __enter__(self):
        self._open, builtins.open = builtins.open, self.open
        self._stat, os.stat = os.stat, self.stat
        self._listdir, os.listdir = os.listdir, self.listdir
        return self

    def __exit__(self, *exc):
        builtins.open = self._open
        os.stat = self._stat
        os.listdir = self._listdir
        return False
