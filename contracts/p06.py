"""P06: MPI helpers move arrays exactly."""
from pydv.api import contract
from contracts.mpilib import World

M = 'pyuoi.mpi_utils'


def anyarray(t, name, ndim, kind, dims=None, narrow=None):
    shape = tuple(t.dim('%s_%d' % (name, j)) for j in range(ndim)) if dims is None else dims
    return t.array(name, shape, kind=kind), shape


@contract('P06', funcs=[M + '.Bcast_from_root', M + '.check_valid_ndarray'], n=150)
def bcast(t):
    m = t.mod(M)
    size = t.choice('size', [1, 2, 3])
    root = t.choice('root', [0, 1, 2])
    t.requires(root < size)
    ndim = t.choice('ndim', [0, 1, 2, 3])
    kind = t.choice('kind', ['f', 'i'])
    X, shape = anyarray(t, 'X', ndim, kind)
    dt = t.narrow(kind)
    X = X.astype(dt) if dt is not None else X
    other = t.choice('others pass', ['None', 'array'])
    Y, _ = anyarray(t, 'Y', 1, 'f')
    w = World(t, size)

    def program(comm):
        return m.Bcast_from_root(X if comm.rank == root else None if other == 'None' else Y, comm, root=root)
    out = w.run(program)
    if out is None:
        return
    for r in range(size):
        t.ensure('dtype', out[r].dtype == X.dtype)
        t.ensure_shape('shape', out[r], shape)
        t.ensure_array('content', out[r], shape, lambda *i: t.at(X, *i))


@contract('P06', funcs=[M + '.Gatherv_rows', M + '.check_valid_ndarray'], n=200)
def gather(t):
    m = t.mod(M)
    size = t.choice('size', [1, 2, 3, 4])
    root = t.choice('root', [0, 1, 3])
    t.requires(root < size)
    ndim = t.choice('ndim', [1, 2, 3])
    kind = t.choice('kind', ['f', 'i'])
    dt = t.narrow(kind)
    rows = [t.dim('rows%d' % r, lo=0, hi=3) for r in range(size)]
    trail = tuple(t.dim('d%d' % j) for j in range(1, ndim))
    A = [t.array('A%d' % r, (rows[r],) + trail, kind=kind) for r in range(size)]
    if dt is not None:
        A = [a.astype(dt) for a in A]
    w = World(t, size)
    out = w.run(lambda comm: m.Gatherv_rows(A[comm.rank], comm, root=root))
    if out is None:
        return
    want = t.np.concatenate(A)
    for r in range(size):
        if r != root:
            t.ensure('nothing elsewhere', out[r] is None)
        else:
            t.ensure('dtype', out[r].dtype == A[0].dtype)
            t.ensure_array('rows of all ranks in rank order', out[r], (sum(rows),) + trail, lambda *i: t.at(want, *i))


@contract('P06', funcs=[M + '.check_valid_ndarray', M + '.Bcast_from_root', M + '.Gatherv_rows'])
def rejects(t):
    m = t.mod(M)
    bad = t.choice('argument', [[1., 2.], (3,), 1.5, 'abc', {}, 7])
    fn = t.choice('function', ['Bcast_from_root', 'Gatherv_rows', 'check_valid_ndarray'])
    w = World(t, 1)

    def call():
        if fn == 'check_valid_ndarray':
            m.check_valid_ndarray(bad)
        else:
            w.run(lambda comm: getattr(m, fn)(bad, comm, root=0))
    t.ensure('ValueError', t.raises(ValueError, call))


@contract('P06', funcs=[M + '.load_data_MPI'], n=100)
def load(t):
    m = t.mod(M)
    size = t.choice('size', [1, 2, 3])
    root = t.choice('root', [0, 1, 2])
    t.requires(root < size)
    xk, yk = t.choice('kinds', [('f', 'f'), ('f', 'i'), ('i', 'i')])
    X, xs = anyarray(t, 'X', t.choice('ndim', [1, 2]), xk)
    y, ys = anyarray(t, 'y', 1, yk)
    keys = t.choice('keys', [None, ('a', 'b')])
    opened = []

    class Data(object):
        def __init__(self, a):
            self.a = a
            self.shape = a.shape
            self.dtype = a.dtype

        def __getitem__(self, k):
            return self.a.copy()

    class File(object):
        def __init__(self, name, mode='r'):
            t.ensure('the file asked for, read only', name == 'data.h5' and mode == 'r')
            opened.append(name)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __getitem__(self, k):
            kx, ky = keys if keys is not None else ('X', 'y')
            t.ensure('a dataset asked for', k == kx or k == ky)
            return Data(X if k == kx else y)
    t.stub('h5py', 'File', File)
    w = World(t, size)

    def program(comm):
        if keys is None:
            return m.load_data_MPI('data.h5', comm=comm, root=root)
        return m.load_data_MPI('data.h5', X_key=keys[0], y_key=keys[1], comm=comm, root=root)
    out = w.run(program)
    if out is None:
        return
    for r in range(size):
        A, b = out[r]
        t.ensure('dtypes', A.dtype == X.dtype and b.dtype == y.dtype)
        t.ensure_array('X on every rank', A, xs, lambda *i: t.at(X, *i))
        t.ensure_array('y on every rank', b, ys, lambda *i: t.at(y, *i))
