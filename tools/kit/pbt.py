"""What the helper modules beside this file need, over kit.py."""
import os, tempfile
import kit
from kit import hx, unhx


class HarnessError(Exception):
    pass


class Result:
    def __init__(self, r):
        self.r, self.lines, self.err = r, r.lines, r.err.encode('latin1')
        self.how, self.code, self.ended = r.how, r.code, r.ended

    def crash(self):
        if self.ended:
            return None
        return 'ended by %s %d (last line %s): %s' % (('exit', 'signal', 'time limit')[min(self.how, 2)], self.code,
                                                      self.lines[-1:], self.r.err[-300:])

    def get(self, tag):
        return kit.get(self.r, tag)


class Drv:
    pass


class Ctx:
    def __init__(self, *drivers):
        self.exe = {d: kit.build(d) for d in drivers}
        self.drv = {}
        for d, e in self.exe.items():
            self.drv[d] = Drv()
            self.drv[d].exe = e

    def dir(self):
        return tempfile.mkdtemp(dir=kit.TMP)

    def drive(self, name, prog, dir=None, timeout=60):
        return Result(kit.run(self.exe[name], prog, timeout, dir))
