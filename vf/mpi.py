"""A deterministic stand-in for an MPI communicator: the ranks are threads of
which exactly one runs at a time; who runs next is decided, at every call of
the communicator, by a generated schedule.  Sends are buffered ("eager") or
wait for the matching receive ("sync"), as drawn per message.  Deadlocks,
mismatched collectives and messages nobody receives are detected."""
import pickle
import threading

import numpy as np

from . import core


class Abort(BaseException):
    pass


class Problem(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


class World:
    def __init__(self, size, schedule=(), sync=()):
        self.size = size
        self.schedule = list(schedule) or [0]
        self.sync = list(sync) or [False]
        self.pos = 0
        self.nmsg = 0
        self.queues = {}
        self.coll = []
        self.colseq = [0] * size
        self.main = threading.Semaphore(0)
        self.sem = [threading.Semaphore(0) for _ in range(size)]
        self.pred = [None] * size
        self.what = [""] * size
        self.done = [False] * size
        self.result = [None] * size
        self.error = [None] * size
        self.abort = False
        self.switches = 0
        self.trace = []

    # called by a rank: give up the token until pred() holds
    def pause(self, r, pred, what):
        self.pred[r], self.what[r] = pred, what
        self.main.release()
        self.sem[r].acquire()
        if self.abort:
            raise Abort

    def _run(self, r, fn):
        self.sem[r].acquire()
        try:
            if not self.abort:
                self.result[r] = fn(Comm(self, r))
        except Abort:
            pass
        except BaseException as e:  # reported by run()
            self.error[r] = e
        self.done[r] = True
        self.main.release()

    def run(self, fn):
        """fn(comm) on every rank; returns the list of results."""
        self.pred = [lambda: True] * self.size
        ts = [threading.Thread(target=self._run, args=(r, fn), daemon=True) for r in range(self.size)]
        for t in ts:
            t.start()
        outer = np.random.get_state()
        states = [outer] * self.size
        last = -1
        problem = None
        while not all(self.done):
            ready = [r for r in range(self.size) if not self.done[r] and self.pred[r]()]
            if not ready:
                problem = Problem("deadlock", "deadlock: " + "; ".join(f"rank {r} waits in {self.what[r]}" for r in range(self.size) if not self.done[r]))
                break
            r = ready[self.schedule[self.pos % len(self.schedule)] % len(ready)]
            self.pos += 1
            self.switches += r != last
            last = r
            np.random.set_state(states[r])
            self.sem[r].release()
            self.main.acquire()
            states[r] = np.random.get_state()
            if self.error[r] is not None:
                problem = self.error[r]
                break
        np.random.set_state(outer)
        if problem is not None:
            self.abort = True
            for r in range(self.size):
                while not self.done[r]:
                    self.sem[r].release()
                    self.main.acquire()
            raise problem
        for t in ts:
            t.join()
        left = {k: len(v) for k, v in self.queues.items() if v}
        if left:
            raise Problem("leftover", f"messages that nobody received (source, destination, tag): {left}")
        if len(set(self.colseq)) > 1:
            raise Problem("collective", f"the ranks took part in {self.colseq} collective operations")
        return self.result


class Comm:
    """What SeismicMesh uses of mpi4py's communicator."""

    def __init__(self, world, rank):
        self.w, self.rank, self.size = world, rank, world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _dump(self, obj):
        return pickle.dumps(obj)

    # --- point to point
    def send(self, obj, dest, tag=0):
        if dest == NULL:
            return
        if not 0 <= dest < self.size:
            raise Problem("rank", f"rank {self.rank} sends to rank {dest} of {self.size}")
        w = self.w
        m = {"data": self._dump(obj), "taken": False}
        w.queues.setdefault((self.rank, dest, tag), []).append(m)
        sync = w.sync[w.nmsg % len(w.sync)]
        w.nmsg += 1
        w.pause(self.rank, (lambda: m["taken"]) if sync else (lambda: True), f"send to {dest}, tag {tag}")

    ssend = send

    def isend(self, obj, dest, tag=0):
        if dest == NULL:
            return _Request(lambda: None)
        if not 0 <= dest < self.size:
            raise Problem("rank", f"rank {self.rank} sends to rank {dest} of {self.size}")
        m = {"data": self._dump(obj), "taken": False}
        self.w.queues.setdefault((self.rank, dest, tag), []).append(m)
        return _Request(lambda: self.w.pause(self.rank, lambda: m["taken"], f"wait for send to {dest}, tag {tag}"))

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        w = self.w
        if source == NULL:
            return None

        def keys():
            return [k for k, v in w.queues.items() if v and k[1] == self.rank and source in (-1, k[0]) and tag in (-1, k[2])]

        if source >= self.size:
            raise Problem("rank", f"rank {self.rank} receives from rank {source} of {self.size}")
        w.pause(self.rank, lambda: bool(keys()), f"recv from {source}, tag {tag}")
        ks = keys()
        k = ks[w.schedule[w.pos % len(w.schedule)] % len(ks)]
        m = w.queues[k].pop(0)
        m["taken"] = True
        return pickle.loads(m["data"])

    def irecv(self, buf=None, source=-1, tag=-1):
        return _Request(lambda: self.recv(source=source, tag=tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        r = self.isend(sendobj, dest, sendtag)
        o = self.recv(source=source, tag=recvtag)
        r.wait()
        return o

    # (buffers: whole arrays)
    def Send(self, buf, dest, tag=0):
        self.send(_array(buf), dest, tag)

    Ssend = Send

    def Isend(self, buf, dest, tag=0):
        return self.isend(_array(buf), dest, tag)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        _fill(buf, self.recv(source=source, tag=tag))

    def Irecv(self, buf, source=-1, tag=-1):
        return _Request(lambda: _fill(buf, self.recv(source=source, tag=tag)))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        _fill(recvbuf, self.sendrecv(_array(sendbuf), dest, sendtag, None, source, recvtag))

    def Bcast(self, buf, root=0):
        o = self.bcast(_array(buf) if self.rank == root else None, root)
        if self.rank != root:
            _fill(buf, o)

    def Gather(self, sendbuf, recvbuf, root=0):
        o = self.gather(_array(sendbuf), root)
        if self.rank == root:
            _fill(recvbuf, np.concatenate([v.ravel() for v in o]))

    def Allgather(self, sendbuf, recvbuf):
        _fill(recvbuf, np.concatenate([v.ravel() for v in self.allgather(_array(sendbuf))]))

    def alltoall(self, objs):
        if len(objs) != self.size:
            raise Problem("collective", f"alltoall of {len(objs)} objects on {self.size} ranks")
        return [row[self.rank] for row in self.allgather(list(objs))]

    # --- collectives
    def _join(self, op, root, value):
        w = self.w
        i = w.colseq[self.rank]
        w.colseq[self.rank] += 1
        if i == len(w.coll):
            w.coll.append({"op": op, "root": root, "in": {}})
        c = w.coll[i]
        if (c["op"], c["root"]) != (op, root):
            raise Problem("collective", f"rank {self.rank} calls {op} (root {root}) where others call {c['op']} (root {c['root']})")
        c["in"][self.rank] = value
        return c

    def _all(self, c, op):
        self.w.pause(self.rank, lambda: len(c["in"]) == self.size, op)

    def barrier(self):
        self._all(self._join("barrier", 0, None), "barrier")

    Barrier = barrier

    def bcast(self, obj, root=0):
        c = self._join("bcast", root, self._dump(obj) if self.rank == root else None)
        if self.rank == root:
            sync = self.w.sync[self.w.nmsg % len(self.w.sync)]
            self.w.nmsg += 1
            self.w.pause(self.rank, (lambda: len(c["in"]) == self.size) if sync else (lambda: True), f"bcast from {root}")
            return obj
        self.w.pause(self.rank, lambda: root in c["in"], f"bcast from {root}")
        return pickle.loads(c["in"][root])

    def gather(self, obj, root=0):
        c = self._join("gather", root, self._dump(obj))
        if self.rank != root:
            self.w.pause(self.rank, lambda: True, "gather")
            return None
        self._all(c, "gather")
        return [pickle.loads(c["in"][r]) for r in range(self.size)]

    def allgather(self, obj):
        c = self._join("allgather", 0, self._dump(obj))
        self._all(c, "allgather")
        return [pickle.loads(c["in"][r]) for r in range(self.size)]

    def scatter(self, obj, root=0):
        v = None
        if self.rank == root:
            if len(obj) != self.size:
                raise Problem("collective", f"scatter of {len(obj)} objects to {self.size} ranks")
            v = [self._dump(o) for o in obj]
        c = self._join("scatter", root, v)
        self.w.pause(self.rank, lambda: root in c["in"], "scatter")
        return pickle.loads(c["in"][root][self.rank])

    def _fold(self, vals, op):
        from mpi4py import MPI

        f = next(g for o, g in ((MPI.SUM, np.add), (MPI.MIN, np.minimum), (MPI.MAX, np.maximum), (MPI.PROD, np.multiply)) if o == op)
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        return r

    def allreduce(self, obj, op=None):
        from mpi4py import MPI

        c = self._join("allreduce", 0, self._dump(obj))
        self._all(c, "allreduce")
        return self._fold([pickle.loads(c["in"][r]) for r in range(self.size)], MPI.SUM if op is None else op)

    def reduce(self, obj, op=None, root=0):
        from mpi4py import MPI

        c = self._join("reduce", root, self._dump(obj))
        if self.rank != root:
            self.w.pause(self.rank, lambda: True, "reduce")
            return None
        self._all(c, "reduce")
        return self._fold([pickle.loads(c["in"][r]) for r in range(self.size)], MPI.SUM if op is None else op)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        r = self.reduce(np.array(sendbuf), op, root)
        if self.rank == root:
            recvbuf[...] = r

    def Allreduce(self, sendbuf, recvbuf, op=None):
        recvbuf[...] = self.allreduce(np.array(sendbuf), op)


NULL = -2  # MPI.PROC_NULL of Open MPI


def _array(buf):
    return np.array(buf[0] if isinstance(buf, (list, tuple)) else buf)


def _fill(buf, v):
    if v is None:
        return
    b = buf[0] if isinstance(buf, (list, tuple)) else buf
    if np.size(v) > b.size:
        raise Problem("truncated", f"a message of {np.size(v)} numbers for a buffer of {b.size}")
    b.flat[: np.size(v)] = np.ravel(v)


class _Request:
    def __init__(self, fin):
        self._fin, self._val, self._ok = fin, None, False

    def wait(self, status=None):
        if not self._ok:
            self._val = self._fin()
            self._ok = True
        return self._val

    Wait = wait


def run(size, fn, schedule=(), sync=(), what="the parallel run"):
    """Run fn(comm) on every rank; anything unexpected is a violation."""
    w = World(size, schedule, sync)
    try:
        return w.run(fn), w
    except core.Violation:
        raise
    except Problem as e:
        raise core.Violation(f"{what} on {size} ranks: {e}", e.kind)
    except Exception as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.name}" for f in reversed(tb[-3:]))
        raise core.Violation(f"{what} on {size} ranks raised {type(e).__name__}: {e} [{loc}]", "raised")
