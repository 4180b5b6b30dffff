"""Controlled scheduler for real threads that execute code of jax_sgmc.

All threads of an execution run one at a time. A running thread can be
preempted before every source line of jax_sgmc (sys.settrace) and at every lock
operation; which thread continues is decided by the explorer. With a bound on
the number of preemptions, all schedules are enumerated (CHESS style).

install() must be called before jax_sgmc is imported. It replaces the lock
factories of the threading module: locks created by jax_sgmc (also indirectly
via Condition, Event, Semaphore, ...) are known to the scheduler such that
blocked threads are not scheduled and deadlocks are detected.
"""
import _thread
import sys
import threading

from mc.core import explore

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_active = None                 # scheduler of the current execution
_by_thread = {}                # thread ident -> Task
_RELEASED = object()


class Deadlock(Exception):
  pass


class _Abort(BaseException):
  """Ends the threads of an abandoned execution."""


def _task():
  if _active is None:
    return None
  return _by_thread.get(_thread.get_ident())


class ControlledLock:
  """Replacement of threading.Lock."""
  reentrant = False

  def __init__(self):
    self._real = _real_lock()
    self._owner = None
    self._count = 0

  def _free_for(self, me):
    return self._owner is None or (self.reentrant and self._owner == me)

  def acquire(self, blocking=True, timeout=-1):
    task = _task()
    me = _thread.get_ident()
    if task is None:
      if self.reentrant and self._owner == me:
        self._count += 1
        return True
      if not blocking:
        got = self._real.acquire(False)
      else:
        got = self._real.acquire(True, timeout if timeout >= 0 else 30)
        if not got and timeout < 0:
          raise Deadlock('lock is never released')
      if got:
        self._owner, self._count = me, 1
      return got
    task.sched.point(task)
    while not self._free_for(me):
      if not blocking:
        return False
      if timeout >= 0:
        # a timeout may expire at any time: let the others run first
        task.sched.block(task, self, may_timeout=True)
        if not self._free_for(me):
          return False
      else:
        task.sched.block(task, self)
    if self._owner is None:
      self._real.acquire(False)
    self._owner = me
    self._count += 1
    return True

  def release(self):
    task = _task()
    if self._owner is None:
      raise RuntimeError('release unlocked lock')
    if self.reentrant and self._owner != _thread.get_ident():
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if self._count == 0 or not self.reentrant:
      self._count = 0
      self._owner = None
      self._real.release()
    if task is not None:
      task.sched.point(task)

  def locked(self):
    return self._owner is not None

  __enter__ = acquire

  def __exit__(self, *args):
    self.release()

  def _at_fork_reinit(self):
    self.__init__()


class ControlledRLock(ControlledLock):
  reentrant = True

  def _is_owned(self):
    return self._owner == _thread.get_ident()

  def _release_save(self):
    count = self._count
    self._count = 1
    self.release()
    return count

  def _acquire_restore(self, count):
    self.acquire()
    self._count = count


def _from_repo():
  frame = sys._getframe(2)
  for _ in range(8):
    if frame is None:
      return False
    name = frame.f_code.co_filename
    if '/jax_sgmc/' in name:
      return True
    if not name.endswith(('threading.py', 'queue.py')):
      return False
    frame = frame.f_back
  return False


def _lock_factory():
  return ControlledLock() if _from_repo() else _real_lock()


def _rlock_factory(*args, **kwargs):
  return ControlledRLock() if _from_repo() else _real_rlock(*args, **kwargs)


def install():
  assert 'jax_sgmc' not in sys.modules
  threading.Lock = _lock_factory
  threading._allocate_lock = _lock_factory
  threading.RLock = _rlock_factory


class Task:

  def __init__(self, sched, index, fn):
    self.sched, self.index, self.fn = sched, index, fn
    self.go = threading.Semaphore(0)
    self.waiting_for = None
    self.may_timeout = False
    self.condition = None
    self.done = False
    self.result = self.error = None
    self.log = []

  def enabled(self):
    if self.done:
      return False
    if self.waiting_for is None:
      return True
    return (self.waiting_for._owner is None) or self.may_timeout

  def main(self):
    _by_thread[_thread.get_ident()] = self
    self.go.acquire()
    try:
      if self.sched.aborted:
        raise _Abort()
      sys.settrace(self.sched.tracer)
      self.result = self.fn()
    except _Abort:
      pass
    except BaseException as err:  # pylint: disable=broad-except
      self.error = err
    finally:
      sys.settrace(None)
      self.done = True
      _by_thread.pop(_thread.get_ident(), None)
      self.sched.finished(self)


class Scheduler:
  """Executes functions in threads; choose(n) selects the next thread."""

  def __init__(self, fns, choose, bound, files, max_points=60000):
    self.tasks = [Task(self, i, f) for i, f in enumerate(fns)]
    self.choose, self.budget, self.files = choose, bound, files
    self.over = threading.Semaphore(0)
    self.aborted = False
    self.deadlock = None
    self.points = 0
    self.consecutive = 0
    self.max_points = max_points
    self.trace = []              # threads in the order of execution
    self.positions = []          # and the step at which they were selected

  # -- called by the threads ------------------------------------------------
  def tracer(self, frame, event, arg):
    if event != 'call':
      return None
    name = frame.f_code.co_filename
    if '/jax_sgmc/' not in name or not name.endswith(self.files):
      return None
    return self.line

  def line(self, frame, event, arg):
    if event == 'line':
      task = _task()
      if task is not None:
        self.point(task)
    return self.line

  def point(self, task):
    if self.aborted:
      raise _Abort()
    self.points += 1
    if self.points > self.max_points:
      self.stop('livelock: too many steps')
      raise _Abort()
    self.consecutive += 1
    if self.consecutive > 2000 and self.consecutive % 100 == 0:
      # fairness: a thread that polls for another one lets it run
      others = [t for t in self.tasks if t is not task and t.enabled()]
      if others:
        order = sorted(others, key=lambda t: (t.index <= task.index, t.index))
        self.switch(task, order[0])
        return
    if self.budget <= 0 or self.consecutive > 2000:
      return
    others = [t for t in self.tasks if t is not task and t.enabled()]
    if not others:
      return
    pick = self.choose(1 + len(others))
    if pick == 0:
      return
    self.budget -= 1
    self.switch(task, others[pick - 1])

  def block(self, task, lock, may_timeout=False):
    task.waiting_for, task.may_timeout = lock, may_timeout
    self.leave(task)
    task.waiting_for, task.may_timeout = None, False

  def leave(self, task):
    """The thread cannot continue."""
    nxt = self.next_task(task)
    if nxt is None:
      if task.may_timeout:
        return
      self.stop('deadlock')
      raise _Abort()
    if nxt is task:
      return
    self.switch(task, nxt)

  def next_task(self, task):
    ready = [t for t in self.tasks if t is not task and t.enabled()]
    if not ready:
      return task if task.enabled() else None
    return ready[self.choose(len(ready)) if len(ready) > 1 else 0]

  def switch(self, task, nxt):
    self.trace.append(nxt.index)
    self.positions.append((self.points, nxt.index))
    if self.consecutive <= 2000:
      self.consecutive = 0
    nxt.go.release()
    task.go.acquire()
    if self.aborted:
      raise _Abort()

  def stop(self, why):
    if not self.aborted:
      self.aborted = True
      self.deadlock = why
      for t in self.tasks:
        t.go.release()

  def finished(self, task):
    if self.aborted:
      if all(t.done for t in self.tasks):
        self.over.release()
      return
    if all(t.done for t in self.tasks):
      self.over.release()
      return
    nxt = self.next_task(task)
    if nxt is None:
      self.stop('deadlock')
    else:
      self.trace.append(nxt.index)
      self.positions.append((self.points, nxt.index))
      nxt.go.release()

  # -- called by the explorer -----------------------------------------------
  def run(self, timeout=60):
    global _active
    _active = self
    try:
      threads = [threading.Thread(target=t.main, daemon=True)
                 for t in self.tasks]
      for t in threads:
        t.start()
      n = len(self.tasks)
      first = self.choose(n) if n > 1 else 0
      self.trace.append(first)
      self.tasks[first].go.release()
      if not self.over.acquire(timeout=timeout):
        self.stop(f'a thread does not return within {timeout} s')
        self.over.acquire(timeout=2)
      for t in threads:
        t.join(1)
    finally:
      _active = None
    return self


def schedules(make, verify, bound, files=('.py',), limit=None):
  """Explores all schedules with at most `bound` preemptions.

  make() returns the list of thread functions (in a fresh initial state), and
  verify(scheduler) checks the outcome of an execution.
  """
  count = [0, 0]

  def history(choose):
    s = Scheduler(make(), choose, bound, files)
    s.run()
    count[0] += 1
    count[1] += s.points
    verify(s)
  explore(history, limit)
  return count

