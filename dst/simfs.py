"""Simulated storage: interposes Python's file calls below one directory.

Files live in a real scratch directory, but every operation on them passes
through here, where the run's fault list decides what happens: I/O errors, full
disk, short reads and writes, torn writes and process kills. Data that a killed
process had not handed to the operating system is lost; data that was handed
over survives (a process crash, not a power failure).
"""
import builtins
import errno
import io
import os
import threading

import numpy as np

from dst.core import SimCrash

_real = dict(
    open=io.open, rename=os.rename, replace=os.replace, remove=os.remove,
    unlink=os.unlink, mkdir=os.mkdir, rmdir=os.rmdir, listdir=os.listdir,
    scandir=os.scandir, truncate=os.truncate, fromfile=np.fromfile,
    stat=os.stat)
_active = None
_bypass = threading.local()


def _mine(path):
  fs = _active
  if fs is None or getattr(_bypass, 'on', False):
    return None
  if isinstance(path, int):
    return None
  try:
    p = os.fspath(path)
  except TypeError:
    return None
  if isinstance(p, bytes):
    p = os.fsdecode(p)
  p = os.path.abspath(p)
  return p if p == fs.root or p.startswith(fs.root + '/') else None


class bypass:
  """File operations of the harness itself, without faults."""

  def __enter__(self):
    self.old = getattr(_bypass, 'on', False)
    _bypass.on = True

  def __exit__(self, *a):
    _bypass.on = self.old


class SimRaw(io.RawIOBase):
  """An open file."""

  def __init__(self, fs, path, mode):
    super().__init__()
    self.fs, self.path, self.epoch = fs, path, fs.epoch
    self.f = _real['open'](path, mode.replace('b', '').replace('t', '') + 'b',
                           buffering=0)
    self.mode = mode
    self.name = path
    fs.open_files.add(self)

  def _dead(self):
    return self.epoch != self.fs.epoch

  def readable(self):
    return self.f.readable()

  def writable(self):
    return self.f.writable()

  def seekable(self):
    return True

  def tell(self):
    return self.f.tell()

  def seek(self, pos, whence=0):
    return self.f.seek(pos, whence)

  def truncate(self, size=None):
    if self._dead():
      return 0
    self.fs.op('truncate', self.path)
    return self.f.truncate(size)

  def fileno(self):
    # a descriptor would bypass the simulated disk
    raise io.UnsupportedOperation('fileno')

  def readinto(self, b):
    if self._dead():
      raise SimCrash()
    n = len(b)
    if n == 0:
      return 0
    fault = self.fs.op('read', self.path, data=True)
    bad = self.fs.bad_byte(self.path)
    pos = self.f.tell()
    if fault and fault['what'] == 'short':
      n = max(1, int(n * fault.get('frac', 0.5)))
    n = min(n, self.fs.read_chunk)
    if bad is not None and pos <= bad < pos + n:
      if bad > pos:
        n = bad - pos
      elif os.fstat(self.f.fileno()).st_size > bad:
        self.fs.hit('eio_read')
        raise OSError(errno.EIO, 'Input/output error (simulated)', self.path)
    return self.f.readinto(memoryview(b)[:n])

  def write(self, b):
    if self._dead():
      return len(b)
    data = bytes(b)
    n = min(len(data), self.fs.write_chunk)
    fault = self.fs.op('write', self.path, data=True)
    if fault:
      what = fault['what']
      k = int(n * fault.get('frac', 0.5))
      if what == 'short':
        n = max(1, k)
      elif what == 'torn':
        self.f.write(data[:k])
        self.fs.crash('torn_write')
      elif what in ('eio', 'enospc'):
        self.f.write(data[:k])
        self.fs.hit(what + '_write')
        self.fs.fail(what, self.path)
    self.f.write(data[:n])
    self.fs.after(fault)
    return n

  def close(self):
    if not self.closed:
      self.fs.open_files.discard(self)
      try:
        super().close()
      finally:
        self.f.close()


class SimFS:

  def __init__(self, ctx, root, on_crash=None, pause=None, inc=0):
    self.ctx = ctx
    self.root = os.path.abspath(root)
    self.faults = [f for f in ctx.faults
                   if f['kind'] == 'disk' and f.get('inc', 0) == inc]
    self.bad = {}            # path -> unreadable byte
    self.n = 0
    self.counted = {}        # operation kind -> count
    self.epoch = 0
    self.dead = False
    self.begun = []          # files opened for writing or renamed into place
    self.hits = 0            # faults that the code could notice
    self.on_crash = on_crash or (lambda: None)
    self.pause = pause or (lambda: None)
    self.write_chunk = 1024
    self.read_chunk = 1 << 30
    self.open_files = set()
    self.enospc_until = -1

  # -- faults -------------------------------------------------------------
  def rel(self, path):
    return os.path.relpath(path, self.root)

  def hit(self, kind):
    if not kind.startswith('short'):
      self.hits += 1
    self.ctx.stats.fault(kind)

  def fail(self, what, path):
    no = {'eio': errno.EIO, 'enospc': errno.ENOSPC}[what]
    raise OSError(no, os.strerror(no) + ' (simulated)', path)

  def crash(self, kind):
    self.hit(kind)
    self.on_crash()
    self.kill()
    raise SimCrash()

  def bad_byte(self, path):
    return self.bad.get(path)

  def op(self, kind, path, data=False):
    """One disk operation; returns a fault the caller must apply, if any.

    A fault names its operation either by overall number ('op') or by kind and
    number among the operations of that kind ('of', 'op').
    """
    self.pause()
    if self.dead:
      raise SimCrash()
    n = self.n
    self.n += 1
    k = self.counted.get(kind, 0)
    self.counted[kind] = k + 1
    self.ctx.stats.event('disk', kind, self.rel(path))
    if kind in ('open_w', 'rename'):
      self.begun.append(path)
    self.ctx.stats.count('disk_ops')
    for f in self.faults:
      if f.get('_done'):
        continue
      if f.get('of') is None:
        at = n
      elif f['of'] == kind:
        at = k
      else:
        continue
      if f['op'] != at:
        continue
      what = f['what']
      if what == 'kill_before':
        f['_done'] = True
        self.crash('kill_at_disk_op')
      if what == 'kill_after':
        f['_done'] = True
        return f
      if what in ('short', 'torn') and not data:
        if what == 'torn':
          f['_done'] = True
          self.crash('kill_at_disk_op')
        continue
      if what == 'torn' and kind == 'read':
        f['_done'] = True
        self.crash('kill_at_disk_op')
      if what == 'enospc' and kind in ('read', 'open_r', 'list', 'remove'):
        continue
      f['_done'] = True
      if what == 'short':
        self.hit('short_' + kind)
        return f
      if what in ('eio', 'enospc'):
        if kind == 'write':
          return f
        self.hit(f'{what}_{kind}')
        self.fail(what, path)
      if what == 'torn':
        return f
    return None

  def after(self, fault):
    if fault and fault['what'] == 'kill_after':
      self.crash('kill_at_disk_op')

  def kill(self):
    """The process dies: nothing buffered in it reaches the disk."""
    self.epoch += 1
    self.dead = True
    for f in list(self.open_files):
      try:
        f.f.close()
      except OSError:
        pass
    self.open_files.clear()

  # -- file API -----------------------------------------------------------
  def open(self, path, mode='r', buffering=-1, encoding=None, errors=None,
           newline=None, closefd=True, opener=None):
    m = mode.replace('t', '')
    writing = any(c in m for c in 'wax+')
    fault = self.op('open_w' if writing else 'open_r', path)
    raw = SimRaw(self, path, m.replace('b', ''))
    self.after(fault)
    if 'b' in m and buffering == 0:
      return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in m:
      buf = io.BufferedRandom(raw, size)
    elif writing:
      buf = io.BufferedWriter(raw, size)
    else:
      buf = io.BufferedReader(raw, size)
    if 'b' in m:
      return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
    text.mode = mode
    return text


def _open(file, mode='r', *a, **k):
  p = _mine(file)
  if p is None:
    return _real['open'](file, mode, *a, **k)
  return _active.open(p, mode, *a, **k)


def _wrap1(name, kind):
  real = _real[name]

  def f(path='.', *a, **k):
    p = _mine(path)
    if p is None:
      return real(path, *a, **k)
    fs = _active
    fault = fs.op(kind, p)
    r = real(path, *a, **k)
    fs.after(fault)
    return r
  f.__name__ = name
  return f


def _listdir(path='.'):
  p = _mine(path)
  if p is None:
    return _real['listdir'](path)
  fault = _active.op('list', p)
  r = sorted(_real['listdir'](path))
  _active.after(fault)
  # directory order is arbitrary
  order = _active.ctx.choices
  for i in range(len(r) - 1, 0, -1):
    j = i - order.pick(i + 1)
    r[i], r[j] = r[j], r[i]
  return r


def _wrap2(name):
  real = _real[name]

  def f(src, dst, *a, **k):
    p = _mine(dst)
    if p is None:
      return real(src, dst, *a, **k)
    fs = _active
    fault = fs.op('rename', p)
    r = real(src, dst, *a, **k)
    fs.after(fault)
    return r
  f.__name__ = name
  return f


def _fromfile(file, *a, **k):
  """np.fromfile goes through a descriptor; follow it by its offsets."""
  if not isinstance(file, io.IOBase):
    p = _mine(file)
    if p is None:
      return _real['fromfile'](file, *a, **k)
    file = _active.open(p, 'rb')
  raw = file
  while not isinstance(raw, SimRaw):
    nxt = getattr(raw, 'buffer', None) or getattr(raw, 'raw', None)
    if nxt is None or nxt is raw:
      return _real['fromfile'](file, *a, **k)
    raw = nxt
  fs = raw.fs
  fs.op('read', raw.path)
  pos = file.tell()
  with _real['open'](raw.path, 'rb') as f:
    f.seek(pos)
    out = _real['fromfile'](f, *a, **k)
    end = f.tell()
  bad = fs.bad_byte(raw.path)
  if bad is not None and pos <= bad < max(end, pos + 1) and (
      bad < os.path.getsize(raw.path)):
    fs.hit('eio_read')
    raise OSError(errno.EIO, 'Input/output error (simulated)', raw.path)
  file.seek(end)
  return out


def _h5():
  import h5py  # pylint: disable=g-import-not-at-top
  real = h5py.File

  class File(real):
    """h5py opens files itself; below the root it gets a simulated one."""

    def __init__(self, name, mode='r', *a, **k):
      self._sim = None
      p = _mine(name) if isinstance(name, (str, os.PathLike)) else None
      if p is not None and not a and not k:
        if mode == 'r':
          m = 'rb'
        elif mode in ('w', 'w-', 'x'):
          m = 'w+b' if mode == 'w' else 'x+b'
        else:
          m = 'r+b' if os.path.exists(p) else 'w+b'
        name = self._sim = _active.open(p, m)
      super().__init__(name, mode, *a, **k)

    def close(self):
      try:
        super().close()
      finally:
        if getattr(self, '_sim', None) is not None:
          self._sim.close()

  File.__name__ = File.__qualname__ = 'File'
  h5py.File = File


def install():
  """Puts the seam in place; without an active SimFS it changes nothing."""
  builtins.open = io.open = _open
  os.rename, os.replace = _wrap2('rename'), _wrap2('replace')
  os.remove, os.unlink = _wrap1('remove', 'remove'), _wrap1('unlink', 'remove')
  os.mkdir, os.rmdir = _wrap1('mkdir', 'mkdir'), _wrap1('rmdir', 'remove')
  os.truncate = _wrap1('truncate', 'truncate')
  os.listdir = _listdir
  np.fromfile = _fromfile
  _h5()


class mounted:

  def __init__(self, fs):
    self.fs = fs

  def __enter__(self):
    global _active
    self.old, _active = _active, self.fs
    return self.fs

  def __exit__(self, *a):
    global _active
    _active = self.old
