"""Stand-in files: the code under test opens them by name and reads (symbolic) lines."""
import builtins
from .sym import mk, chs


class FakeFile:
    def __init__(self, lines, name='x'):
        self.lines = [mk(chs(x) + ['\n']) for x in lines]
        self.name = name
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(self.lines)

    def readlines(self):
        return list(self.lines)

    def readline(self):
        self.pos += 1
        return self.lines[self.pos - 1] if self.pos <= len(self.lines) else ''

    def read(self):
        out = []
        for x in self.lines:
            out += chs(x)
        return mk(out)

    def close(self):
        pass


class OutFile:
    """Collects what is written."""
    def __init__(self):
        self.parts = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, it):
        for s in it:
            self.parts.append(s)

    def flush(self):
        pass

    def close(self):
        pass

    def text(self):
        out = []
        for p in self.parts:
            out += chs(p)
        return mk(out)


class files:
    """with files(module, {name: lines}): open() inside the module finds the stand-ins."""
    def __init__(self, mod, table):
        self.mods = mod if isinstance(mod, (list, tuple)) else [mod]
        self.table = table
        self.out = {}

    def _open(self, name, mode='r', *a, **k):
        if 'w' in mode or 'a' in mode:
            self.out[name] = OutFile()
            return self.out[name]
        if name in self.table:
            return FakeFile(self.table[name], name)
        return builtins.open(name, mode, *a, **k)

    def __enter__(self):
        for m in self.mods:
            m.__dict__['open'] = self._open
        return self

    def __exit__(self, *a):
        for m in self.mods:
            m.__dict__.pop('open', None)
        return False
