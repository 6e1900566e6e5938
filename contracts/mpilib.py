"""A communicator over simulated ranks.

Assumed contract of MPI (blocking collectives on one communicator): every rank
takes part in the same sequence of collectives with the same root; each of them
completes on a rank once the data it needs there have been supplied.

The ranks are executed one after the other on the real code.  A rank that needs
data another rank has not supplied yet is suspended and executed again from its
start later (rank programs are deterministic), with its collectives answered
from the log.  If no rank can continue the program deadlocks."""


class Suspend(Exception):
    pass


class World(object):
    def __init__(self, t, size):
        self.t, self.size = t, size
        self.log = []
        self.counts = [0] * size
        self.progress = False
        self.mpi = t.mod('pyuoi.mpi_utils').MPI

    def run(self, program):
        """program(comm) on every rank; returns the list of results"""
        t = self.t
        out = [None] * self.size
        todo = list(range(self.size))
        while todo:
            self.progress = False
            for r in list(todo):
                c = Comm(self, r)
                try:
                    out[r] = (program(c),)
                except Suspend:
                    continue
                self.counts[r] = c.k
                todo.remove(r)
                self.progress = True
            if not self.progress:
                t.fail('no deadlock')
                return None
        t.ensure('every rank takes part in every collective', all(c == len(self.log) for c in self.counts))
        return [o[0] for o in out]

    def typ(self, a):
        names = {'float64': 'DOUBLE', 'float32': 'FLOAT', 'int64': 'LONG', 'int32': 'INT'}
        n = a.dtype.name
        self.t.ensure('a supported dtype', n in names)
        return getattr(self.mpi, names[n])


class Comm(object):
    def __init__(self, world, rank):
        self.w, self.rank, self.size, self.k = world, rank, world.size, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _op(self, kind, root, mine):
        """enter a collective, supplying `mine`; returns the data supplied so far"""
        w, t = self.w, self.w.t
        if self.k == len(w.log):
            w.log.append((kind, root, {}))
        e = w.log[self.k]
        self.k += 1
        t.ensure('the same sequence of collectives with the same root on every rank', e[0] == kind and e[1] == root)
        if self.rank not in e[2]:
            e[2][self.rank] = mine() if mine is not None else None
            w.progress = True
        return e[2]

    def _need(self, data, ranks):
        if any(r not in data for r in ranks):
            raise Suspend()

    def bcast(self, obj=None, root=0):
        d = self._op('bcast', root, (lambda: obj) if self.rank == root else None)
        self._need(d, [root])
        return d[root]

    def gather(self, obj, root=0):
        d = self._op('gather', root, lambda: obj)
        if self.rank != root:
            return None
        self._need(d, range(self.size))
        return [d[r] for r in range(self.size)]

    def allgather(self, obj):
        d = self._op('allgather', None, lambda: obj)
        self._need(d, range(self.size))
        return [d[r] for r in range(self.size)]

    def Bcast(self, spec, root=0):
        t = self.w.t
        buf, typ = spec if isinstance(spec, (list, tuple)) else (spec, None)
        if typ is not None:
            t.ensure('MPI type of the buffer', typ is self.w.typ(buf) or typ == self.w.typ(buf))
        d = self._op('Bcast', root, (lambda: buf.copy()) if self.rank == root else None)
        self._need(d, [root])
        if self.rank != root:
            src = d[root]
            t.ensure('receive buffer of the dtype sent', buf.dtype == src.dtype)
            t.ensure_shape('receive buffer of the shape sent', buf, t.shape(src))
            buf[...] = src

    def Reduce(self, send, recv, op=None, root=0):
        t = self.w.t
        t.ensure('a sum', op is self.w.mpi.SUM or op == self.w.mpi.SUM)
        d = self._op('Reduce', root, lambda: send + 0)
        if self.rank == root:
            self._need(d, range(self.size))
            buf = recv[0] if isinstance(recv, (list, tuple)) else recv
            s = d[0]
            for r in range(1, self.size):
                s = s + d[r]
            buf[...] = s

    def Gatherv(self, send, spec, root=0):
        t = self.w.t
        d = self._op('Gatherv', root, lambda: send.copy())
        if self.rank != root:
            return
        self._need(d, range(self.size))
        rec, sizes, disps, typ = spec
        t.ensure('MPI type of the buffer', typ is self.w.typ(rec) or typ == self.w.typ(rec))
        pos = 0
        for r in range(self.size):
            src = d[r]
            t.ensure('row shape', t.ndim(src) == t.ndim(rec))
            row = 1
            for j in range(1, t.ndim(rec)):
                t.ensure('row shape', t.shape(src)[j] == t.shape(rec)[j])
                row = row * t.shape(rec)[j]
            for what, v in (('counts', sizes), ('displacements', disps)):
                t.ensure('integer ' + what, t.is_integer(t.at(v, r)))
            cnt = t.shape(src)[0] * row
            t.ensure('count of the rows sent', t.at(sizes, r) == cnt)
            t.ensure('contiguous, in rank order', t.at(disps, r) == pos)
            pos = pos + cnt
        # contiguous segments of whole rows in rank order are the row-wise concatenation
        t.ensure('the receive buffer holds all rows', t.shape(rec)[0] == sum(t.shape(d[r])[0] for r in range(self.size)))
        rec[...] = t.np.concatenate([d[r] for r in range(self.size)])
