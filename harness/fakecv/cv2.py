"""The part of OpenCV's Python interface that reads stored models: FileStorage
and FileNode with the semantics of OpenCV 4 (keys in file order, real() also of
integers, an empty node for a missing key)."""
import re, yaml

FILE_STORAGE_READ = 0


class FileNode:
    def __init__(self, v=None):
        self._v = v

    def empty(self): return self._v is None
    def isNone(self): return self._v is None
    def isMap(self): return isinstance(self._v, dict)
    def isSeq(self): return isinstance(self._v, list)
    def isInt(self): return isinstance(self._v, int)
    def isReal(self): return isinstance(self._v, float)
    def isString(self): return isinstance(self._v, str)
    def keys(self): return list(self._v) if self.isMap() else []
    def getNode(self, k): return FileNode(self._v.get(k)) if self.isMap() else FileNode()
    def at(self, i): return FileNode(self._v[i]) if self.isSeq() and 0 <= i < len(self._v) else FileNode()
    def real(self): return float(self._v) if isinstance(self._v, (int, float)) else (0.0 if self._v is None else 1.7976931348623157e308)
    def string(self): return self._v if self.isString() else ""

    def size(self):
        if self.isMap() or self.isSeq(): return len(self._v)
        return 0 if self._v is None else 1


class FileStorage:
    def __init__(self, name=None, flags=0):
        self._d = None
        if name is not None: self.open(name, flags)

    def open(self, name, flags=0):
        with open(name) as f: s = f.read()
        s = re.sub(r"^%YAML.*\n", "", s)
        # flow maps are written without a blank after the colon
        s = re.sub(r"(?<=[{,\s])([A-Za-z_]\w*):(?=[^\s])", r"\1: ", s)
        self._d = yaml.safe_load(s)
        return True

    def isOpened(self): return self._d is not None
    def getFirstTopLevelNode(self): return FileNode(next(iter(self._d.values())))
    def root(self, i=0): return FileNode(self._d)
    def getNode(self, k): return FileNode(self._d.get(k))
    def release(self): self._d = None
