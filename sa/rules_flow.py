"""C10 collectives, C11 shared writes, C12 stale results, C13 reproducibility."""
import os
import re
import multiprocessing
import vn
import spec
from core import *
from vn import F, EL, THIS, ptr, addr


def roots(p):
    """every function of the library with a body, apart from lambdas (analysed where they are called)"""
    return [f for f in p.fns if f.repo and f.body is not None and not f.dflt and
            not (f.cls or "").startswith("lambda@")]


_job = {}


def _run(i):
    p, fs, visit, kw = _job["p"], _job["fs"], _job["visit"], _job["kw"]
    f = fs[i]
    g = vn.Engine(p, **kw)
    try:
        g.enter(f)
    except RecursionError:
        return i, [("und", "analysis of " + f.qn, wfn(f), "too deep")], set(), []
    out = visit(g, f)
    vis = set("%s @ %s:%s" % (h.qn, os.path.relpath(h.file, load.REPO) if h.file else "?", h.line)
              for h in g.visited)
    return i, out, vis, []


import load


def sweep(p, rep, visit, fs=None, **kw):
    """analyse every root function on its own; visit(engine, fn) -> obligations"""
    fs = fs if fs is not None else roots(p)
    kw.setdefault("contracts", spec.OPS)
    _job.update(p=p, fs=fs, visit=visit, kw=kw)
    n = max(1, min(8, os.cpu_count() or 1))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        res = sorted(pool.imap_unordered(_run, range(len(fs)), 4))
    seen = set()
    for i, out, vis, _ in res:
        rep.functions |= vis
        for o in out:
            if o not in seen:
                seen.add(o)
                rep.add(*o)


# -- C10 ---------------------------------------------------------------------

DV = "dealii::LinearAlgebra::distributed::"
TW = "dealii::TrilinosWrappers::"
MPI_LOCAL = ("MPI_Comm_rank", "MPI_Comm_size", "MPI_Initialized", "MPI_Wtime", "MPI_Type_size", "MPI_Send",
             "MPI_Recv", "MPI_Isend", "MPI_Irecv", "MPI_Wait", "MPI_Waitall", "MPI_Finalized", "MPI_Get_count")
UTIL = ("sum", "max", "min", "min_max_avg", "all_gather", "gather", "broadcast", "logical_or", "all_reduce",
        "partial_and_total_sum", "some_to_some", "compute_set_union", "create_evenly_distributed_partitioning",
        "create_ascending_partitioning", "scatter", "reduce", "mean_and_standard_deviation")
NORMS = ("l1_norm", "l2_norm", "linfty_norm", "lp_norm", "norm_sqr", "mean_value", "operator*", "add_and_dot",
         "all_zero", "is_non_negative", "frobenius_norm", "residual", "matrix_norm_square", "matrix_scalar_product")
LIBV = ("mfmg::Operator::", "mfmg::Smoother::", "mfmg::Solver::", "mfmg::HierarchyHelpers::",
        "mfmg::Hierarchy::apply")
LIBC = ("apply", "transpose", "multiply", "multiply_transpose", "build_domain_vector", "build_range_vector",
        "get_global_operator", "build_restrictor", "build_smoother", "build_coarse_solver",
        "fast_multiply_transpose")
EVAL = ("evaluate_global", "get_diagonal", "matrix_free_evaluate_global", "matrix_free_get_diagonal_inverse",
        "matrix_free_initialize_global")


def collective(f, name):
    """short name of the collective operation, or None"""
    cls = f.cls or ""
    if name.startswith("MPI_"):
        return None if name in MPI_LOCAL else name
    if name.startswith("dealii::Utilities::MPI::"):
        n = name.split("::")[-1]
        return n if n in UTIL else None
    pt = [t.s for t in f.ptypes]
    if f.kind == "ctor" or f.name == "reinit":
        if cls.startswith((DV, TW)) or cls.startswith("dealii::DoFHandler") and 0:
            if cls.startswith(TW + "Precondition") or cls.startswith(TW + "Solver"):
                return None
            if any("IndexSet" in t or "communicator" in t or "MPI_Comm" in t or "SparsityPattern" in t and
                   f.name == "reinit" or "Epetra" in t for t in pt) or f.kind == "ctor" and any(
                    "SparsityPattern &" in t and "const" in t for t in pt):
                return cls.split("::")[-1] + (" construction" if f.kind == "ctor" else "::reinit")
        return None
    if cls == "dealii::LinearAlgebra::distributed::Vector" or cls.startswith(TW + "MPI::Vector"):
        if f.name in NORMS or f.name in ("compress", "update_ghost_values", "import", "copy_locally_owned_data_from"):
            return cls.split("::")[-1] + "::" + f.name
        return None
    if cls.startswith((TW + "SparseMatrix", TW + "SparsityPattern")):
        if f.name in NORMS + ("compress", "vmult", "Tvmult", "vmult_add", "Tvmult_add", "mmult", "Tmmult",
                              "copy_from", "transpose", "clear"):
            return cls.split("::")[-1] + "::" + f.name
        return None
    if cls.startswith((TW + "Precondition", TW + "Solver", "dealii::PreconditionChebyshev")):
        if f.name in ("initialize", "vmult", "Tvmult", "solve", "step"):
            return cls.split("::")[-1] + "::" + f.name
        return None
    if name.startswith("EpetraExt::") or cls.startswith("Epetra"):
        if f.name in ("Multiply", "Add", "operator()", "RowMatrixToMatrixMarketFile",
                      "MultiVectorToMatrixMarketFile", "FillComplete", "Import", "Export", "Norm2", "NormInf",
                      "Norm1", "Dot", "OptimizeStorage", "Barrier", "SumAll", "MaxAll", "MinAll", "GatherAll",
                      "Broadcast", "ScanSum", "Apply", "Solve", "ReplaceColMap", "GlobalAssemble"):
            if cls.startswith("Epetra_MultiVector") and f.name == "operator()":
                return None
            return name
        return None
    if cls.startswith("mfmg::"):
        if name.startswith(LIBV) and (f.name in LIBC):
            return name.split("mfmg::")[-1]
        if f.virtual and f.name in LIBC + EVAL:
            return name.split("mfmg::")[-1]
    return None


LOCAL_APPS = re.compile(
    r"this_mpi_process|locally_owned|local_range|local_size|n_locally|locally_relevant|NumMy|MyGlobal|LID|"
    r"active_cell|user_index|is_ghost|is_artificial|IndexSet::n_elements|index_within_set|nth_index|is_element|"
    r"n_active_cells|locally_owned_subdomain|subdomain_id|get_partitioner|local_element|ExtractMyRow|begin_active|"
    r"n_owned|MPI_Comm_rank|fill_index_vector|memory_consumption|in_local_range|row_is_stored_locally")
GLOBAL_APPS = re.compile(
    r"::(m|n|n_dofs|size|n_nonzero_elements|n_global_active_cells|n_mpi_processes|get_mpi_communicator|tolower|"
    r"get_communicator|n_levels|get_dim|get_mesh_evaluator_type|NumGlobal\w*)$")
REDUCED = re.compile(r"^(out_MPI_All|out_MPI_Bcast|out_MPI_Reduce)")


def spread(t, g):
    """('local', term) if the value differs between processes, ('?', term) if unknown, else None"""
    bad = unk = None
    seen = set()
    todo = [t]
    byuid = {l.uid: l for l in g.all_loops}
    phis = {}
    for l in g.all_loops:
        for ph, init, nx in l.phis.values():
            phis[ph] = (init, nx)
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        nm = x.op if x.op != "app" else "app " + str(x.a[0])
        if REDUCED.search(x.op):
            continue
        if x.op == "app" and re.search(r"Utilities::MPI::(%s)$" % "|".join(UTIL), str(x.a[0])):
            continue
        if x.op == "app" and LOCAL_APPS.search(str(x.a[0])) or x.op.startswith(("upd_", "res_", "out_")) and \
                LOCAL_APPS.search(x.op) or x.op == "ncells":
            bad = x
            break
        if x.op == "app" and GLOBAL_APPS.search(str(x.a[0])):
            continue
        if x.op == "trip" and x.a[0] in byuid:
            l = byuid[x.a[0]]
            todo.append(l.N0)
            todo.extend(b[0] for b in l.breaks)
            continue
        if x in phis:
            todo.extend(phis[x])
            continue
        if x.op == "app" and str(x.a[0]).startswith(("tolower", "toupper", "std::", "boost::", "string")) and not \
                re.search("chrono|rand|time|clock", str(x.a[0])):
            todo.extend(a for a in x.a if isinstance(a, T))
            continue
        if x.op in ("trip", "exists", "unk", "caught", "adv", "itr_next", "phi") or x.op == "app" or \
                x.op.startswith(("out_", "res_", "upd_")):
            unk = x
        for a in x.a:
            if isinstance(a, T):
                todo.append(a)
            elif isinstance(a, tuple):
                todo.extend(y for y in flat(a) if isinstance(y, T))
    return ("local", bad) if bad is not None else ("?", unk) if unk is not None else None


def flat(a):
    for y in a:
        if isinstance(y, tuple):
            yield from flat(y)
        else:
            yield y


def c10_visit(g, f):
    out = []
    groups = {}
    for c in g.calls:
        if c.fn is None:
            continue
        n = collective(c.fn, c.name)
        if n is None:
            continue
        if c.par or c.phase:
            out.append(("bad", "%s inside the work of one agglomerate" % n, c.where,
                        "called in %s" % (c.inside.qn if c.inside else "")))
            continue
        groups.setdefault((n, c.loops), []).append(c)
    for e in g.events:
        if e.kind == "new" and e.par:
            t = e.name
            if t.startswith((DV, TW + "Sparse", TW + "MPI")):
                out.append(("bad", "distributed object made inside the work of one agglomerate", e.where, t))
    for (n, loops), cs in groups.items():
        name = "%s is executed by all processes alike" % n
        lw = None
        for what, t in [("repetitions", l.N) for l in loops] + \
                [("condition of the loop", and_(*[q for q, k in l.pc if k != "as"])) for l in loops]:
            s = spread(t, g)
            if s is not None and (lw is None or s[0] == "local"):
                lw = (s, what, t)
        gs = [spread(c.guard, g) for c in cs]
        odd = [c for c, s in zip(cs, gs) if s is not None]
        # the operation may be spread over the branches of a condition
        alt = spread(or_(*[c.guard for c in odd]), g) if len(odd) > 1 else None
        for c, s in zip(cs, gs):
            w = lw
            if s is not None and (len(odd) < 2 or alt is not None) and (w is None or s[0] == "local"):
                w = (s, "condition", c.guard)
            if w is None:
                out.append(("ok", name, c.where, ""))
            else:
                s2, what, t = w
                out.append(("bad" if s2[0] == "local" else "und", name, c.where,
                            "%s: %s depends on %s" % (what, show(t)[:300], show(s2[1])[:200])))
    return out


def c10(p, rep):
    sweep(p, rep, c10_visit)
    rep.need(40, "collective operations")


# -- C11 ---------------------------------------------------------------------

def varno(t):
    m = re.search(r"#(\d+)$", str(t.a[0]))
    return int(m.group(1)) if m else None


SYNC = ("std::cout", "std::cerr", "std::clog", "dealii::deallog")


def owner(t, uid, k, depth=0):
    """whom the object belongs to: 'own' (this work item), 'shared', or '?'"""
    if depth > 60 or not isinstance(t, T):
        return "?"
    o = t.op
    nx = lambda x: owner(x, uid, k, depth + 1)
    if o in ("f", "el"):
        return nx(t.a[0])
    if o == "var":
        n = varno(t)
        return "shared" if n is None else "own" if n > uid else "shared"   # no number: a parameter of the root
    if o == "new":
        if len(t.a) > 2 and isinstance(t.a[2], tuple):
            return "own" if k in t.a[2] else "shared"
        return "?"
    if o in ("stale", "made", "clo", "undef", "garbage", "zero", "null"):
        return "own" if o != "null" else "shared"
    if o == "glob":
        return "own" if t.a[0] in SYNC else "shared"
    if o in ("sym", "this"):
        return "shared"
    if o in ("ptr", "addr", "at", "addrof", "dyncast"):
        return nx(t.a[-1])
    if o in ("fld", "sel", "setf", "sto", "get", "it", "itr"):
        w = nx(t.a[0])
        return "?" if w == "own" and o in ("fld", "sel", "get") and hasptr(t.a[0]) else w
    if o == "ite":
        ws = {nx(t.a[1]), nx(t.a[2])} - {"null"}
        return ws.pop() if len(ws) == 1 else "shared" if "shared" in ws else "?"
    if o == "app":
        if str(t.a[0]).endswith(("clone", "make_unique", "make_shared", "Factory::create")):
            return "own"
        return nx(t.a[1]) if len(t.a) > 1 else "?"
    if o.startswith("res_"):
        return "own" if o.endswith("::clone") else nx(t.a[0])
    if o.startswith("upd_"):
        return nx(t.a[0])
    if o == "phi" and len(t.a) > 1 and isinstance(t.a[1], T):
        return nx(t.a[1])
    return "?"


def hasptr(t):
    return any(x.op in ("addr", "sym", "at") for x in subterms(t))


def root(loc):
    while loc.op in ("f", "el"):
        loc = loc.a[0]
    return loc


PARALLEL = re.compile(r"dealii::parallel::(apply|transform|accumulate)|parallel_for|std::thread|std::async|"
                      r"dealii::Threads::new_t|WorkStream::mesh_loop|MeshWorker|tbb::")


def c11_visit(g, f):
    out = []
    for c in g.calls:
        if c.fn is not None and PARALLEL.search(c.name):
            out.append(("und", "concurrent work", c.where, "started by %s, not analysed" % c.name))
    if not g.streams:
        if any(e.name.endswith("WorkStream::run") for e in g.events):
            e = next(e for e in g.events if e.name.endswith("WorkStream::run"))
            out.append(("und", "concurrent work", e.where, "the worker is not a lambda"))
        return out
    for luid, (worker, copier, s, d, k) in g.streams.items():
        tag = raw("par", luid)
        at = next((e.where for e in g.events if e.name.endswith("WorkStream::run")), "")
        copied = set()
        for loc, v, pc, loops, file, line, par in g.writes:
            if par.op == "copier" and par.a[0] == luid if isinstance(par, T) else False:
                r = root(loc)
                if owner(r, luid, k) == "shared":
                    copied.add(r)
        seen = {}
        for loc, v, pc, loops, file, line, par in g.writes:
            if par is not tag:
                continue
            r = root(loc)
            w = "own" if r in (s, d) else owner(r, luid, k)
            where = "%s:%s" % (vn.short(file), line)
            name = "work on one agglomerate writes only its own data"
            if w == "own":
                seen.setdefault(where, ("ok", name, where, ""))
            else:
                seen[where] = ("bad" if w == "shared" else "und", name, where,
                               "writes %s in %s" % (show(loc)[:200], f.qn[:120]))
        out.extend(seen.values())
        # what the worker reads must not change while it runs
        if worker.op == "clo" and worker in g.clos:
            caps = g.clos[worker][1]
            for vid, l in caps.items():
                if isinstance(l, T) and root(l) in copied:
                    out.append(("bad", "the copying step changes nothing the work reads", at,
                                "%s is used by the work and changed by the copying step" % show(l)))
            out.append(("ok", "the copying step changes nothing the work reads", at,
                        "%d captured, %d changed" % (len(caps), len(copied))))
        # evaluators that can be cloned are used through a clone
        for e in g.events:
            if e.kind != "virt" or e.par is not tag or e.fn is None or not e.fn.virtual:
                continue
            if e.fn.name == "clone" or not clonable(g.p, e.fn):
                continue
            o = owner(e.objt if e.objt is not None else e.obj, luid, k)
            name = "%s is called on the work item's own copy of the evaluator" % e.fn.name
            out.append(("ok" if o == "own" else "bad" if o == "shared" else "und", name, e.where,
                        "" if o == "own" else "on " + show(e.objt if e.objt is not None else e.obj)[:300]))
    return out


def clonable(p, f):
    for h in p.fns:
        if h.name == "clone" and h.cls == f.cls and h.ret is not None and "unique_ptr" in h.ret.s:
            return True
    return False


def c11(p, rep):
    sweep(p, rep, c11_visit)
    rep.need(100, "writes of concurrent work")


# -- C12 ---------------------------------------------------------------------

LOOPY = ("iter", "phi", "trip", "unk", "exists", "caught")


def stale_uses(v, what):
    """how old content of the thread's object reaches v: 'direct', 'loop' or None (with an example)"""
    best = None
    seen = set()
    todo = [(v, False)]
    while todo:
        t, lp = todo.pop()
        if (t.id, lp) in seen:
            continue
        seen.add((t.id, lp))
        if t.op == "stale":
            if t.a[0] == what:
                if not lp:
                    return "direct"
                best = "loop"
            continue
        if what == "scratch" and (t.op in ("app", "at") or t.op.startswith(("out_", "res_", "upd_"))):
            continue       # a starting guess handed to a solver
        nl = lp or t.op in LOOPY
        for a in t.a:
            if isinstance(a, T):
                todo.append((a, nl))
            elif isinstance(a, tuple):
                todo.extend((y, nl) for y in flat(a) if isinstance(y, T))
    return best


def nonzero_paths(t, cap=64):
    """literal sets under which the diagram t is not zero, with the leaf reached"""
    if t.op == "ite":
        out = []
        for b, s in ((True, t.a[1]), (False, t.a[2])):
            out += [({**l, t.a[0]: b}, leaf) for l, leaf in nonzero_paths(s, cap)]
        return out[:cap]
    return [] if t is ZERO else [({}, t)]


def pointed(g, e):
    """the values handed over, with the content of what is handed over by pointer or iterator"""
    out = []
    for v in e.argv:
        if v is None:
            continue
        out.append(v)
        if v.op in ("itr", "addr") and e.mem and isinstance(v.a[0], T):
            try:
                out.append(g.read_at(e, v.a[0]))
            except Exception:
                pass
    return out


def c12_visit(g, f):
    out = []
    for luid, (worker, copier, s, d, k) in g.streams.items():
        if copier.op != "clo":
            out.append(("und", "copying step", "", "not a lambda"))
            continue
        tag = raw("copier", luid)
        items = []
        for e in g.events:
            if e.par is tag:
                items.append((e.where, e.name.split("::")[-1], e.pc, e.loops, pointed(g, e)))
        for loc, v, pc, loops, file, line, par in g.writes:
            if par is tag and owner(root(loc), luid, k) == "shared":
                items.append(("%s:%s" % (vn.short(file), line), show(loc)[:40].split("#")[0], pc, loops, [v]))
        if not items:
            at = next((e.where for e in g.events if e.name.endswith("WorkStream::run")), "")
            out.append(("und", "copying step", at, "adds nothing that is recognised"))
        for where, nm, pc, loops, vals in items:
            name = "what is added for a work item was computed for it (%s)" % nm
            base = {}
            for c, kd in pc:
                literals(c, base)
            whole = and_(*[c for c, kd in pc])
            ctx = [(l, []) for l in bool_paths(whole) or [base]]
            for l in loops:
                if l.uid <= luid:
                    continue
                nxt = []
                for lits, leaves in ctx:
                    n = assume(l.N, lits)
                    for more, leaf in nonzero_paths(n):
                        nxt.append(({**lits, **more}, leaves + [leaf]))
                ctx = nxt[:64]
            worst = None
            for lits, leaves in ctx:
                conds = [assume(c, {a: b for a, b in lits.items()}) for c, kd in pc if kd != "as"]
                for v in vals + leaves + conds:
                    v = assume(v, lits)
                    for what in ("copy", "scratch"):
                        u = stale_uses(v, what)
                        if u and (worst is None or u == "direct"):
                            worst = (u, what, v)
            if worst is None:
                out.append(("ok", name, where, ""))
            else:
                u, what, v = worst
                old = next(x for x in subterms(v) if x.op == "stale" and x.a[0] == what)
                use = next((x for x in subterms(v) if any(y is old for y in x.a)), v)
                out.append(("bad" if u == "direct" else "und", name, where,
                            "reads %s, what another work item left in the thread's %s object" % (
                                show(use)[:200].replace(show(old), what), what)))
    return out


def c12(p, rep):
    sweep(p, rep, c12_visit)
    rep.need(5, "copying steps")


# -- C13 ---------------------------------------------------------------------

ENGINE = re.compile(r"(std|boost::random|boost)::(\w*_engine|mt19937\w*|minstd_rand\w*|default_random_engine|"
                    r"ranlux\w*|knuth_b|rand48|taus88|hellekalek1995|ecuyer1988|kreutzer1986|mersenne_twister\w*)")
NONDET = re.compile(r"^(std::|::)?(rand|random|drand48|lrand48|mrand48|rand_r|time|clock|getpid|gettimeofday)$|"
                    r"random_device|chrono::.*now$|std::this_thread::get_id|std::random_shuffle|"
                    r"Utilities::generate_normal_random_number|getpid|std::hash<.*\*>|MPI_Wtime|"
                    r"dealii::Utilities::System::get_(hostname|time|date)|std::hash::operator\(\)")
UNORD = re.compile(r"(std|boost)::unordered_(multi)?(map|set)")
PTRKEY = re.compile(r"^(const )?std::(multi)?(map|set)<[^,<>]*\*( const)?[,>]|"
                    r"^(const )?std::(multi)?(map|set)<(const )?std::(shared|unique)_ptr<")


def seed_ok(v):
    """None if a constant, a counter or a parameter of the analysed function; otherwise what it depends on"""
    for x in subterms(v):
        if x.op in ("app", "glob", "unk", "stale", "made", "new", "addr", "at", "fld") or x.op.startswith(
                ("out_", "res_", "upd_")):
            return x
    return None


def c13_visit(g, f):
    out = []
    for e in g.events:
        t = e.name
        if e.kind in ("ctor", "new") and ENGINE.match(t) or e.kind == "ext" and ENGINE.match(t) and t.endswith("::seed"):
            name = "generator is seeded with a constant or a counter"
            worst = None
            for v in e.argv:
                if v is not None:
                    worst = worst or seed_ok(v)
            if worst is None:
                out.append(("ok", name, e.where, ""))
            else:
                nd = worst.op in ("glob", "stale", "addr") or worst.op == "app" and (
                    NONDET.search(str(worst.a[0])) or LOCAL_APPS.search(str(worst.a[0]))) or worst.op == "made" and \
                    "random_device" in str(worst.a[0])
                out.append(("bad" if nd else "und", name, e.where, "seed depends on " + show(worst)[:200]))
        # drawing from a generator made elsewhere
        if e.kind == "ext" and re.search(r"_distribution::operator\(\)$", t) and e.args:
            l = e.args[0]
            if isinstance(l, T):
                r = root(l)
                name = "numbers are drawn from a generator made in this very call"
                if r.op == "glob" or r.op == "this" or r.op == "ptr" and any(
                        x.op in ("this",) for x in subterms(r)) or l.op == "f" and r.op == "ptr":
                    out.append(("bad", name, e.where, "drawn from %s, which keeps its state between calls" % show(l)[:150]))
                elif r.op in ("var", "new"):
                    out.append(("ok", name, e.where, ""))
    for c in g.calls:
        if c.fn is not None and NONDET.search(c.name):
            out.append(("und" if re.search("time|clock|chrono|Wtime|hash", c.name) else "bad",
                        "nothing depends on time, addresses or unseeded generators", c.where, "calls " + c.name))
    # partitioning
    seeds = [e for e in g.events if re.search(r"[sS]rand$", e.name)]
    for e in g.events:
        if e.name != "dealii::SparsityTools::partition":
            continue
        name = "the partitioner's generator is seeded before every partitioning"
        if f.acc in (1, 2):
            continue               # decided where the public functions call it
        left = e.guard
        prev = max([p.seq for p in g.events if p.name == e.name and p.seq < e.seq] or [0])
        cs = [s for s in seeds if prev < s.seq < e.seq and s.loops == e.loops[:len(s.loops)]]
        for s in cs:
            left = and_(left, not_(s.guard))
        bad = [x for s in cs for v in s.argv if v is not None for x in [seed_ok(v)] if x is not None]
        if not cs or any(len(s.loops) < len(e.loops) for s in cs):
            out.append(("bad", name, e.where, "no seeding on the way from %s" % f.qn[:100]))
        elif bad:
            out.append(("bad", name, e.where, "the seed depends on " + show(bad[0])[:200]))
        elif infeasible(left):
            out.append(("ok", name, e.where, ""))
        elif opaque_heads(left) - {"app tolower"}:
            out.append(("und", name, e.where, "unless " + show(left)[:300]))
        else:
            out.append(("bad", name, e.where, "not seeded if " + show(left)[:300]))
    return out


def walk(n, fn):
    """every node of a syntax tree"""
    if isinstance(n, dict):
        fn(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, fn)
    elif isinstance(n, list):
        for v in n:
            walk(v, fn)


def node_type(n):
    t = n.get("t") if isinstance(n, dict) else None
    return t.s if t is not None and hasattr(t, "s") else ""


def c13(p, rep):
    sweep(p, rep, c13_visit)
    # state that survives a call
    for c in p.classes.values():
        if c.lam or not c.loc or not getattr(c, "fields", None):
            continue
        for fl in c.fields:
            t = fl["t"].s if hasattr(fl["t"], "s") else str(fl["t"])
            if ENGINE.search(t):
                rep.bad("no generator is kept between calls", str(c.loc), "member of %s: %s" % (c.name, t))
    for v in p.globals:
        t = v.get("t") if isinstance(v, dict) else getattr(v, "t", None)
        if ENGINE.search(getattr(t, "s", str(t))):
            rep.bad("no generator is kept between calls", str(v.get("loc") if isinstance(v, dict) else ""),
                    "global generator")
    done = set()
    for f in p.fns:
        if not f.repo or f.body is None:
            continue

        def visit(n, f=f):
            k = n.get("k")
            if k == "decl":
                for v in n.get("vars", n.get("v", [])) or []:
                    if isinstance(v, dict) and v.get("static") and ENGINE.search(node_type(v)):
                        rep.bad("no generator is kept between calls", "%s:%s" % (vn.short(f.file), n.get("l")),
                                "static generator in " + f.qn[:120])
            if k == "rfor":
                key = (f.file, n.get("l"))
                rt = n.get("rt")
                ts = [rt.s if hasattr(rt, "s") else str(rt)]
                if key in done:
                    return
                done.add(key)
                w = "%s:%s" % (vn.short(f.file), n.get("l"))
                t = " ".join(ts)
                name = "no loop follows the order of an unordered container or of addresses"
                if UNORD.search(t) or PTRKEY.search(t):
                    rep.add("bad" if ordered_effect(n) else "und", name, w, "iterates over " + t[:150])
                else:
                    rep.ok(name, w)
            if k == "call" and n.get("fn") is not None and hasattr(n["fn"], "name") and n["fn"].name in (
                    "begin", "cbegin") and UNORD.search((n["fn"].cls or "") + "<"):
                w = "%s:%s" % (vn.short(f.file), n.get("l"))
                rep.und("no loop follows the order of an unordered container or of addresses", w,
                        "begin() of " + (n["fn"].cls or ""))
        walk(f.body, visit)
    rep.need(20, "generators and loops")


def ordered_effect(n):
    """the body numbers things or appends to a list"""
    hit = []

    def v(x):
        if x.get("k") == "un" and x.get("op") in ("++", "--"):
            hit.append(x)
        f = x.get("fn")
        if x.get("k") == "call" and f is not None and hasattr(f, "name") and f.name in (
                "push_back", "emplace_back", "insert", "append", "set_user_index", "operator+=", "operator<<"):
            hit.append(x)
        if x.get("k") == "bin" and x.get("op") in ("+=", "-=", "*="):
            hit.append(x)
    walk(n.get("body") or n.get("b"), v)
    return hit
