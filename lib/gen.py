"""Random structures/trajectories plus an independent model of their attributes."""
from pv import *
from geom import my_cc
import scipy.constants as sc
import ase.data as _ad

KB, EV, AMU = sc.k, sc.e, sc.atomic_mass
PRTOL = 3e-6        # different CODATA years


def std_cell(cc):
    """cell from lattice constants: a || x, b in x-y plane, right-handed"""
    a, b, c = cc[:3]
    al, be, ga = np.radians(cc[3:])
    cx = c * np.cos(be)
    cy = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    return np.array([[a, 0, 0], [b * np.cos(ga), b * np.sin(ga), 0], [cx, cy, np.sqrt(c * c - cx * cx - cy * cy)]])


def raw_struct(seed, kind, n, salt=0, nsym=4):
    """all input attributes of a Structure, mutually consistent"""
    r = rng(seed, 1000 + salt)
    cell = make_cell(kind, seed + salt)
    cf = r.uniform(-0.6, 1.6, (n, 3))
    return dict(cell=cell, cryst_const=my_cc(cell), coords_frac=cf, coords=cf @ cell,
                symbols=rand_symbols(seed, n, nsym), forces=r.normal(size=(n, 3)),
                stress=r.normal(size=(3, 3)) * 10, etot=float(r.normal() * 50))


def rand_symbols(seed, n, nsym=4):
    r = rng(seed, 2000)
    pool = r.choice(SYMS, nsym, replace=False)
    return [str(x) for x in r.choice(pool, n)]


def vary(cell, mode):
    """kinds of cell fluctuations: large, small, tiny, in one frame only, along one vector only"""
    if len(cell) < 2 or mode < 3:
        return cell
    cell = cell.copy()
    d = cell - cell[0]
    if mode == 3:
        return cell[0] + d * 1e-2
    if mode == 4:
        return cell[0] + d * 1e-4
    if mode == 5:
        cell[:-1] = cell[0]
        return cell
    cell[:, :2] = cell[0, :2]
    return cell


def raw_traj(seed, kind, n, nstep, varcell=True, salt=0, smooth_path=False):
    r = rng(seed, 3000 + salt)
    c0 = make_cell(kind, seed + salt)
    cell = np.array([c0 @ (np.eye(3) + (0.05 * r.uniform(-1, 1, (3, 3)) if varcell else 0)) for _ in range(nstep)]).reshape(nstep, 3, 3)
    if varcell:
        cell = vary(cell, (seed + salt) % 7)
    cf = r.uniform(-0.6, 1.6, (nstep, n, 3))
    co = np.array([f @ c for f, c in zip(cf, cell)]).reshape(nstep, n, 3)
    cc = np.array([my_cc(c) for c in cell]).reshape(nstep, 6)
    return dict(cell=cell, cryst_const=cc, coords_frac=cf, coords=co, symbols=rand_symbols(seed, n),
                forces=r.normal(size=(nstep, n, 3)), stress=r.normal(size=(nstep, 3, 3)) * 10,
                etot=r.normal(size=nstep) * 50, velocity=r.normal(size=(nstep, n, 3)) * 0.01,
                ekin=r.uniform(0.1, 3, nstep), temperature=r.uniform(10, 900, nstep),
                timestep=float(r.choice([0.5, 1.0, 2.0, 0.1])))


def central_diff(x, dt):
    v = np.empty(x.shape, float)
    for i in range(1, len(x) - 1):
        v[i] = (x[i + 1] * 1.0 - x[i - 1]) / (2 * dt)
    v[0] = v[1]
    v[-1] = v[-2]
    return v


def mass_of(sym):
    return np.array([_ad.atomic_masses[_ad.atomic_numbers[s]] for s in sym])


STRUCT_ATTRS = ('cell coords coords_frac cryst_const etot forces pressure stress symbols volume mass mass_unique natoms '
                'nspecies ntypat order symbols_unique typat znucl znucl_unique').split()
TRAJ_ONLY = 'nstep timestep time ekin velocity temperature'.split()
TRAJ_ATTRS = STRUCT_ATTRS + TRAJ_ONLY
NSTEP_ATTRS = 'coords coords_frac stress forces velocity cell cryst_const pressure volume etot ekin temperature time'.split()


def model(given, traj):
    """what a Structure/Trajectory built from `given` has to hold (None: not derivable)"""
    g = {k: given.get(k) for k in (TRAJ_ATTRS if traj else STRUCT_ATTRS)}
    m = dict(g)
    nstep = None
    if traj:
        for k in ('coords', 'coords_frac'):
            if g[k] is not None:
                nstep = len(g[k])
                break
        m['nstep'] = nstep
        for k, nd in (('cell', 3), ('cryst_const', 2)):
            if m[k] is not None:
                a = np.asarray(m[k])
                if nstep is not None and (a.ndim == nd - 1 or len(a) == 1):
                    a = a if a.ndim == nd - 1 else a[0]
                    a = np.array([a] * nstep)
                m[k] = a
    per = (lambda f, x: np.array([f(y) for y in x])) if traj else (lambda f, x: f(x))
    if m['cell'] is None and m['cryst_const'] is not None:
        m['cell'] = per(std_cell, m['cryst_const'])
    elif m['cell'] is not None and m['cryst_const'] is None:
        m['cryst_const'] = per(my_cc, m['cell'])
    if m['cell'] is not None:
        if m['coords'] is None and m['coords_frac'] is not None:
            m['coords'] = np.einsum('...ij,...jk->...ik', m['coords_frac'], m['cell'])
        elif m['coords'] is not None and m['coords_frac'] is None:
            m['coords_frac'] = np.einsum('...ij,...jk->...ik', m['coords'], np.linalg.inv(m['cell']))
        if m['volume'] is None:
            m['volume'] = np.abs(np.linalg.det(m['cell']))
    if m['pressure'] is None and m['stress'] is not None:
        m['pressure'] = np.einsum('...ii->...', m['stress']) / 3.0
    s = g['symbols']
    if s is not None:
        u = sorted(set(s))
        Z = _ad.atomic_numbers
        m.update(symbols_unique=u, order={x: i + 1 for i, x in enumerate(u)}, typat=[u.index(x) + 1 for x in s],
                 znucl=[Z[x] for x in s], znucl_unique=[Z[x] for x in u], ntypat=len(u),
                 nspecies={x: sum(y == x for y in s) for x in u}, mass=mass_of(s), mass_unique=mass_of(u),
                 natoms=len(s))
    else:
        for k in ('coords', 'coords_frac'):
            if g[k] is not None:
                m['natoms'] = g[k].shape[-2]
                break
    if traj:
        ts = g['timestep']
        if ts is not None and nstep is not None:
            m['time'] = np.array([i * ts for i in range(nstep)])
        if m['velocity'] is None and m['coords'] is not None and ts is not None and nstep > 2:
            m['velocity'] = central_diff(m['coords'], ts)
        if m['ekin'] is None and m['mass'] is not None and m['velocity'] is not None:
            v = m['velocity'] * 1e5                       # Ang/fs -> m/s
            m['ekin'] = 0.5 * AMU / EV * np.einsum('tij,tij,i->t', v, v, m['mass'])
        if m['temperature'] is None and m['ekin'] is not None and m['natoms'] is not None:
            m['temperature'] = m['ekin'] * EV * 2.0 / (3.0 * m['natoms'] * KB)
    return m


TOL = dict(mass=(2e-3, 0), mass_unique=(2e-3, 0), ekin=(2e-3, 1e-12), temperature=(2e-3, 1e-9),
           coords_frac=(1e-8, 1e-8), coords=(1e-8, 1e-8), cryst_const=(1e-8, 1e-6), cell=(1e-7, 1e-7),
           volume=(1e-8, 1e-9), velocity=(1e-8, 1e-8), pressure=(1e-9, 1e-9), time=(1e-9, 1e-9))


def compare(t, obj, exp, names, msg=''):
    for k in names:
        have, want = getattr(obj, k), exp[k]
        if want is None:
            t.ok(have is None, '%s %s: %s, but it cannot be derived' % (msg, k, short(have)))
            continue
        t.ok(have is not None, '%s %s is missing' % (msg, k))
        if isinstance(want, (np.ndarray, float, np.floating)):
            rt, at = TOL.get(k, (1e-9, 1e-10))
            t.close(have, want, '%s %s' % (msg, k), rtol=rt, atol=at)
        elif isinstance(want, list):
            t.eq(list(have), want, '%s %s' % (msg, k))
        else:
            t.eq(have, want, '%s %s' % (msg, k))
