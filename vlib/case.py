"""What a case gets to see of the machinery."""
import collections
import errno
import hashlib
import os
import shutil


class Violation(Exception):
    """The oracle saw the property broken."""
    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.key = key


class Inconclusive(Exception):
    """Nothing can be said about this case (e.g. no resources)."""


class CpuLimit(BaseException):
    pass


def require(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def equal(a, b, message, *args):
    if a != b:
        raise Violation('%s\n  observed: %s\n  expected: %s' % (
            message % args if args else message, short(a), short(b)))


def short(x, n=1500):
    text = repr(x)
    if len(text) > n:
        text = '%s... (%d characters)' % (text[:n], len(text))
    return text


class Env(object):

    def __init__(self, spec, index, seed):
        self.spec = spec
        self.index = index
        self.seed = seed
        self.tier = spec['tier']
        self.ext = spec['ext']
        self.repo = spec['repo']
        self.counts = collections.Counter()
        self.hash = hashlib.sha256()
        self.trace = collections.deque(maxlen=400)
        self.ops = 0
        self.nontrivial = True
        self.sample = None
        self.cleanups = []
        self._tmp = None
        self.serial = 0

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = os.path.join(self.spec['tmp'], 'case%d' % self.index)
            shutil.rmtree(self._tmp, ignore_errors=True)
            os.mkdir(self._tmp)
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def fresh(self, prefix='x'):
        self.serial += 1
        return self.path('%s%d' % (prefix, self.serial))

    def op(self, *args):
        """Record a step of the case."""
        text = ' '.join(x if isinstance(x, str) else short(x, 200)
                        for x in args)
        self.hash.update(text.encode('utf8', 'replace') + b'\n')
        self.trace.append(text)
        self.ops += 1

    def count(self, name, n=1):
        self.counts[name] += n

    def cleanup(self, function):
        self.cleanups.append(function)
        return function

    def finish(self):
        for function in reversed(self.cleanups):
            try:
                function()
            except Exception:
                pass
        self.cleanups = []
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


RESOURCE_ERRNOS = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM,
                   errno.EDQUOT)


def is_resource_problem(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if isinstance(exc, MemoryError):
            return True
        if (isinstance(exc, OSError) and exc.errno in RESOURCE_ERRNOS and
            not getattr(exc, 'injected', False)):
            return True
        exc = exc.__cause__ or exc.__context__
    return False
