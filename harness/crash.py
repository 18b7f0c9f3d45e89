"""The states of a folder while something is written into it: what is left if the program stops."""
import builtins
import io
import os
import shutil
import _io

REAL_OPEN, REAL_RENAME, REAL_REPLACE = builtins.open, os.rename, os.replace


class File:
    """A file that is written in small steps; the folder is looked at after each."""

    def __init__(self, file, watch):
        self.__dict__["file"], self.__dict__["watch"] = file, watch

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.close()

    def __getattr__(self, n):
        return getattr(self.file, n)

    def write(self, data):
        h = len(data) // 2
        for part in (data[:h], data[h:]):
            if len(part):
                self.file.write(part)
                self.file.flush()
                self.watch.look()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def close(self):
        self.file.close()
        self.watch.look()


class Watch:
    """Collects the states that the files of a folder go through."""

    def __init__(self, folder, modules=()):
        self.folder, self.modules, self.states = folder, modules, []

    def look(self):
        s = {}
        for n in sorted(os.listdir(self.folder)):
            with REAL_OPEN(os.path.join(self.folder, n), "rb") as f:
                s[n] = f.read()
        if s not in self.states:
            self.states.append(s)

    def open(self, file, *a, **k):
        f = REAL_OPEN(file, *a, **k)
        mode = a[0] if a else k.get("mode", "r")
        if not any(c in mode for c in "wax+"):
            return f
        self.look()
        return File(f, self)

    def rename(self, *a, **k):
        self.look()
        REAL_RENAME(*a, **k)
        self.look()

    def replace(self, *a, **k):
        self.look()
        REAL_REPLACE(*a, **k)
        self.look()

    def start(self):
        self.look()
        builtins.open = io.open = _io.open = self.open
        for m in self.modules:
            m.__dict__["open"] = self.open
        os.rename, os.replace = self.rename, self.replace

    def stop(self):
        builtins.open = io.open = _io.open = REAL_OPEN
        for m in self.modules:
            m.__dict__.pop("open", None)
        os.rename, os.replace = REAL_RENAME, REAL_REPLACE
        self.look()

    def leave(self, n):
        """Put the folder into state n."""
        shutil.rmtree(self.folder)
        os.makedirs(self.folder)
        for name, data in self.states[n].items():
            with REAL_OPEN(os.path.join(self.folder, name), "wb") as f:
                f.write(data)
