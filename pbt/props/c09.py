"""C09: compiling, scanning, looping or vectorising a history does not change its results."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import SubCheck, TOL, check, check_bits, check_close, sut

jax, jnp = api.jax, api.jnp

RULE = """A case picks one of a fixed set of controller layouts and generates probabilities, contents,
threshold and depression constant; the same history of steps, resets, views and edits is run operation by operation and
under jit, lax.scan, lax.while_loop, lax.cond and vmap, and the results must agree. Non-trivial: some element halted in
the history while another had not. (closure) The compiled function closes over the controller, its viewer and its editor,
which are then used again, not compiled. (batched)
Controllers stacked and vectorised over with an axis or a tree of axes, lax.map, eval_shape, checkpoint, linearize, pmap, compilation disabled or ahead of time. (x64) In double precision."""
ASSUMPTIONS = ["compiled results are compared with a relative tolerance of 2e-5",
               "dyadic probabilities: no sum lands on a rounding borderline of the threshold"]

L = ["L", []]
L3 = ["L", [3]]
L2 = ["L", [2]]


def acc(name, spec, **kw):
    return dict({"name": name, "spec": spec, "dtype": "float32", "init": "direct", "seed": 7}, **kw)


LAYOUTS = [
    {"batch": [2], "accs": [acc("output", L3)]},
    {"batch": [3], "accs": [acc("b", ["d", [["z", L2], ["a", ["l", [L, L3]]]]]), acc("a", L3)]},
    {"batch": [2, 3], "accs": [acc("s", ["t", [L, L2]], init="fill", fill=1.0), acc("o", L)]},
    {"batch": [], "accs": [acc("s", L3), acc("r", ["l", [L, L2]])]},
    {"batch": [2], "accs": [acc("sq", L2), acc("zz", ["t", [L2, ["d", [["k", L2]]]]]), acc("aa", L)]},
]
T = 6


@st.composite
def cases(draw, mode="dyadic"):
    k = draw(st.integers(0, len(LAYOUTS) - 1))
    batch = LAYOUTS[k]["batch"]
    return {
        "layout": k,
        "eps": draw(st.sampled_from(gen.EPS)),
        "dc": draw(st.sampled_from(gen.DCS)),
        "hp": draw(st.lists(gen.hps(batch, mode), min_size=T, max_size=T)),
        "u": draw(gen.seeds),
        "resets": draw(st.lists(st.booleans(), min_size=T, max_size=T)),
        "mask": draw(st.lists(st.booleans(), min_size=gen.nbatch(batch), max_size=gen.nbatch(batch))),
    }


def wide_cases():
    """In double precision, with probabilities that need it, the sums of which stay clear of the threshold."""
    clear = lambda h: h * 0.9871234567 if 0 < h < 1 else h  # noqa: E731
    return cases("float").map(lambda case: dict(case, wide=True, hp=[[clear(h) for h in hp] for hp in case["hp"]]))


def setup(case):
    lay = LAYOUTS[case["layout"]]
    cfg = dict(lay, dtype="float32", eps=case["eps"], dc=case["dc"])
    if case.get("wide"):
        cfg = dict(cfg, dtype="float64", accs=[dict(a, dtype="float64") for a in cfg["accs"]])
    hps = [api.arr(h, cfg["dtype"], cfg["batch"]) for h in case["hp"]]
    ups = []
    for j in range(T):
        values = api.update_values(cfg, case["u"] + j)
        ups.append({a["name"]: api.value_tree(cfg, a, values[a["name"]]) for a in cfg["accs"]})
    return cfg, hps, ups


def one_step(c, hp, ups):
    for name in ups:
        c = c.cache_update(name, ups[name])
    return c.iterate_act(hp)


def stack(xs):
    return jax.tree_util.tree_map(lambda *l: jnp.stack(l), *xs)


def staggered(case, cfg, ctx, s):
    ctx.nontrivial(bool(s.halted.any() and (not s.halted.all() or len(set(s.it.reshape(-1).tolist())) > 1 or s.it.max() > 1)))


# -- jit of single operations -------------------------------------------------------------
jit_step = jax.jit(one_step)
jit_reset = jax.jit(lambda c: c.reset_batches())
jit_cache = jax.jit(lambda c, ups: _cache(c, ups))
jit_commit = jax.jit(lambda c, hp: c.iterate_act(hp))
jit_view = jax.jit(lambda c, mask: (c.make_viewer().halted_only(), c.make_viewer().unhalted_only(), c.make_viewer().mask_data(mask)))
jit_save = jax.jit(lambda c: c.save())
jit_id = jax.jit(lambda c: c)
jit_flags = jax.jit(lambda c: (c.halted_batches, c.is_completely_halted, c.is_any_halted, c.halt_threshold, c.depression_constant))


def _cache(c, ups):
    for name in ups:
        c = c.cache_update(name, ups[name])
    return c


def run_jit(case, ctx):
    cfg, hps, ups = setup(case)
    a = b = api.make_controller(cfg)
    mask = jnp.asarray(np.array(case["mask"], dtype=bool).reshape(cfg["batch"]))
    tol = TOL[cfg["dtype"]]
    for j in range(T):
        a = sut("step", one_step, a, hps[j], ups[j])
        mode = j % 3
        if mode == 0:
            b = sut("jit(step)", jit_step, b, hps[j], ups[j])
        elif mode == 1:
            b = sut("jit(iterate_act)", jit_commit, sut("jit(cache_update)", jit_cache, b, ups[j]), hps[j])
        else:
            b = sut("jit(step with updates cached outside)", jit_commit, sut("cache_update", _cache, b, ups[j]), hps[j])
        sa, sb = api.snap(a, cfg), api.snap(b, cfg)
        sb.near(sa, f"jit, step {j}", tol)
        staggered(case, cfg, ctx, sa)
        flags = sut("jit(flags)", jit_flags, b)
        want = (a.halted_batches, a.is_completely_halted, a.is_any_halted, a.halt_threshold, a.depression_constant)
        for f, w in zip(flags, want):
            check_close(f"jit flags, step {j}", f, w, tol)
        views = sut("jit(views)", jit_view, b, mask)
        v = sut("make_viewer", a.make_viewer)
        for name, x, y in zip(("halted_only", "unhalted_only", "mask_data"), views,
                              (v.halted_only(), v.unhalted_only(), v.mask_data(mask))):
            check(isinstance(x, api.ACTViewer), f"jit({name}) returned {type(x).__name__}")
            api.snap(x, cfg).near(api.snap(y, cfg), f"jit {name}, step {j}", tol)
        if case["resets"][j]:
            a = sut("reset_batches", a.reset_batches)
            b = sut("jit(reset_batches)", jit_reset, b)
            api.snap(b, cfg).near(api.snap(a, cfg), f"jit reset after step {j}", tol)
            ctx.label("compiled reset")
    b2 = sut("jit(save)", lambda: api.ACT_Controller.load(jit_save(b)))
    api.snap(b2, cfg).near(api.snap(a, cfg), "jit save", tol)
    api.snap(sut("jit(identity)", jit_id, b), cfg).near(api.snap(a, cfg), "jit identity", tol)


# -- whole histories ----------------------------------------------------------------------
def _body(c, xs):
    hp, ups, reset = xs
    c = one_step(c, hp, ups)
    c = jax.lax.cond(reset, lambda k: k.reset_batches(), lambda k: k, c)
    return c, (c.probabilities, c.iterations, c.accumulators)


jit_scan = jax.jit(lambda c, hps, ups, resets: jax.lax.scan(_body, c, (hps, ups, resets)))


def run_scan(case, ctx):
    cfg, hps, ups = setup(case)
    c = api.make_controller(cfg)
    out, (ps, its, accs) = sut("scan of steps and resets", jit_scan, c, jnp.stack(hps), stack(ups), jnp.asarray(case["resets"]))
    for j in range(T):
        c = sut("step", one_step, c, hps[j], ups[j])
        s = api.snap(c, cfg)
        staggered(case, cfg, ctx, s)
        if case["resets"][j]:
            c = sut("reset_batches", c.reset_batches)
        s = api.snap(c, cfg)
        check_close(f"scan: probabilities after step {j}", ps[j], s.p, TOL[cfg["dtype"]])
        check_close(f"scan: iterations after step {j}", its[j], s.it, TOL[cfg["dtype"]])
        got = api.read_named(jax.tree_util.tree_map(lambda x: x[j], accs), cfg, "scan accumulators")
        for n in got:
            for k in got[n]:
                check_close(f"scan: accumulator {n!r}{k} after step {j}", got[n][k], s.acc[n][k], TOL[cfg["dtype"]])
    check(isinstance(out, api.ACT_Controller), "scan did not carry a controller")
    api.snap(out, cfg).near(api.snap(c, cfg), "scan: final controller", TOL[cfg["dtype"]])


def _while(c, hps, ups):
    def cond(s):
        return ~s[0].is_completely_halted & (s[1] < T)

    def body(s):
        c, i = s
        return one_step(c, hps[i], jax.tree_util.tree_map(lambda x: x[i], ups)), i + 1

    return jax.lax.while_loop(cond, body, (c, 0))


jit_while = jax.jit(_while)


def run_while(case, ctx):
    cfg, hps, ups = setup(case)
    c = api.make_controller(cfg)
    out, n = sut("while_loop of steps", jit_while, c, jnp.stack(hps), stack(ups))
    count = 0
    while count < T and not bool(c.is_completely_halted):
        c = sut("step", one_step, c, hps[count], ups[count])
        count += 1
    check(int(n) == count, lambda: f"while_loop made {int(n)} steps, the python loop {count}")
    s = api.snap(c, cfg)
    api.snap(out, cfg).near(s, "while_loop: final controller", TOL[cfg["dtype"]])
    staggered(case, cfg, ctx, s)


def _vm(cfg, template, hps, ups):
    c = template
    for j in range(len(hps)):
        c = one_step(c, hps[j], ups[j])
    v = c.make_viewer().halted_only()
    r = c.reset_batches()
    return (c.probabilities, c.residuals, c.iterations, c.halted_batches, c.accumulators, v.accumulators, r.accumulators, r.probabilities)


def run_vmap(case, ctx):
    """Vectorise over a new leading axis; every slice must be what it would be alone."""
    cfg, hps, ups = setup(case)
    K = 2
    H = [jnp.stack([hps[(j + 3 * k) % T] for k in range(K)]) for j in range(3)]
    U = [stack([ups[(j + 3 * k) % T] for k in range(K)]) for j in range(3)]
    c = api.make_controller(cfg)
    got = sut("vmap of steps", jax.vmap(lambda h, u: _vm(cfg, c, h, u)), H, U)
    for k in range(K):
        want = sut("steps", _vm, cfg, c, [h[k] for h in H], [jax.tree_util.tree_map(lambda x: x[k], u) for u in U])
        g = jax.tree_util.tree_leaves(jax.tree_util.tree_map(lambda x: x[k], got))
        w = jax.tree_util.tree_leaves(want)
        check(len(g) == len(w), "vmap changed the structure")
        for a, b in zip(g, w):
            check_close(f"vmap slice {k}", a, b, TOL[cfg["dtype"]])
        h = np.asarray(want[3])
        ctx.nontrivial(bool(h.any() and not h.all()) or bool(h.any() and k == 1))


def run_closure(case, ctx):
    """Compiled functions that close over the objects instead of getting them as arguments, and objects used again afterwards."""
    cfg, hps, ups = setup(case)
    a = api.make_controller(cfg)
    mask = jnp.asarray(np.array(case["mask"], dtype=bool).reshape(cfg["batch"]))
    n = cfg["accs"][0]["name"]
    for j in range(3):
        # An object of its own for the compiled function, which no uncompiled operation has touched.
        own = api.ACT_Controller.load(a.save())
        viewer, editor = own.make_viewer(), api.TensorEditor.edit_controller(own, "silence")
        cached = _cache(own, ups[j])

        def f(hp):
            flags = (own.halted_batches, own.is_completely_halted, own.is_any_halted, own.halt_threshold, viewer.halted_batches)
            edited = editor.set_accumulator(n, jax.tree_util.tree_map(lambda x: x + hp.sum(), own[n])).build()
            return cached.iterate_act(hp), own.reset_batches(), viewer.halted_only(), viewer.mask_data(mask), viewer.transform(lambda x: x * 2), edited, flags

        got = sut("jit of a function that closes over controllers", jax.jit(f), hps[j])
        # The plain results come later, from the very same objects: nothing of the compilation may be left in them.
        want = sut("the function, not compiled, on the same objects", f, hps[j])
        for k, (x, y) in enumerate(zip(got[:6], want[:6])):
            check(type(x) is type(y), lambda: f"closure: result {k} is {type(x).__name__}")
            api.snap(x, cfg).near(api.snap(y, cfg), f"closure, step {j}, result {k}", TOL[cfg["dtype"]])
        for x, y in zip(got[6], want[6]):
            check_close(f"closure: flags, step {j}", x, y, TOL[cfg["dtype"]])
        s = api.snap(want[0], cfg)
        api.snap(own, cfg).same(api.snap(a, cfg), "the controller that was closed over")
        a = want[0]
        if case["resets"][j]:
            a = sut("reset_batches", a.reset_batches)
        staggered(case, cfg, ctx, s)


def shapes(tree):
    return [(tuple(jnp.shape(x)), str(jnp.result_type(x))) for x in jax.tree_util.tree_leaves(tree)]


def run_batched(case, ctx):
    """Whole controllers stacked on top of each other and vectorised over, and the transformations that look at structure only."""
    cfg, hps, ups = setup(case)
    K = 3
    cs, k = [], api.make_controller(cfg)
    for j in range(K):
        cs.append(k)
        k = sut("step", one_step, k, hps[j], ups[j])
        if case["resets"][j]:
            k = sut("reset_batches", k.reset_batches)
    mask = jnp.asarray(np.array(case["mask"], dtype=bool).reshape(cfg["batch"]))
    stacked = sut("stacking controllers", stack, cs)
    check(isinstance(stacked, api.ACT_Controller), "controllers stack to something else")

    def f(c, hp, u):
        c = one_step(c, hp, u)
        return c, c.make_viewer().mask_data(mask), c.reset_batches(), c.save()

    axes = sut("a tree of axes shaped like a controller", jax.tree_util.tree_map, lambda x: 0, cs[0])
    for label, spec in (("an axis", (0, None, None)), ("a tree of axes", (axes, None, None))):
        got = sut(f"vmap over controllers with {label}", jax.vmap(f, in_axes=spec), stacked, hps[3], ups[3])
        for i in range(K):
            want = f(cs[i], hps[3], ups[3])
            staggered(case, cfg, ctx, api.snap(want[0], cfg))
            for part, x, y in zip(("controller", "viewer", "reset controller", "save"), got, want):
                check(type(x) is type(y), lambda: f"vmap with {label}: {part} is {type(x).__name__}")
                x = jax.tree_util.tree_map(lambda v: v[i], x)
                if part == "save":
                    x, y = api.ACT_Controller.load(x), api.ACT_Controller.load(y)
                api.snap(x, cfg).near(api.snap(y, cfg), f"vmap with {label}, slice {i}, {part}", TOL[cfg["dtype"]])
    want = f(cs[1], hps[3], ups[3])
    looped = sut("lax.map over controllers", jax.lax.map, lambda c: f(c, hps[3], ups[3])[0], stacked)
    api.snap(jax.tree_util.tree_map(lambda v: v[1], looped), cfg).near(api.snap(want[0], cfg), "lax.map", TOL[cfg["dtype"]])
    out = sut("eval_shape of a step", jax.eval_shape, f, cs[1], hps[3], ups[3])
    check(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(want), "eval_shape gives another structure than running")
    check(shapes(out) == shapes(want), lambda: f"eval_shape gives {shapes(out)}, running {shapes(want)}")
    check([type(x) for x in out] == [type(x) for x in want], "eval_shape gives other classes than running")
    # From shapes alone, no array anywhere.
    out = sut("eval_shape of a step from shapes", jax.eval_shape, f, *jax.eval_shape(lambda *x: x, cs[1], hps[3], ups[3]))
    check(shapes(out) == shapes(want), lambda: f"eval_shape from shapes gives {shapes(out)}, running {shapes(want)}")
    got = sut("checkpoint of a step", jax.checkpoint(lambda c: f(c, hps[3], ups[3])[0]), cs[1])
    api.snap(got, cfg).near(api.snap(want[0], cfg), "checkpoint", TOL[cfg["dtype"]])
    with jax.disable_jit():
        got = sut("a step with compilation disabled", jax.jit(f), cs[1], hps[3], ups[3])
        scanned = sut("a scan with compilation disabled", jax.lax.scan, _body, cs[1], (jnp.stack(hps[3:5]), stack(ups[3:5]), jnp.asarray(case["resets"][3:5])))[0]
    for part, x, y in zip(("controller", "viewer", "reset controller"), got, want):
        api.snap(x, cfg).near(api.snap(y, cfg), f"compilation disabled, {part}", TOL[cfg["dtype"]])
    k = cs[1]
    for j in (3, 4):
        k = one_step(k, hps[j], ups[j])
        k = k.reset_batches() if case["resets"][j] else k
    api.snap(scanned, cfg).near(api.snap(k, cfg), "a scan with compilation disabled", TOL[cfg["dtype"]])
    got = sut("a step compiled ahead of time", lambda: jax.jit(f).lower(cs[1], hps[3], ups[3]).compile()(cs[1], hps[3], ups[3]))
    for part, x, y in zip(("controller", "viewer", "reset controller"), got, want):
        api.snap(x, cfg).near(api.snap(y, cfg), f"compiled ahead of time, {part}", TOL[cfg["dtype"]])
    got = sut("pmap of a step", jax.pmap(lambda c: f(c, hps[3], ups[3])[0]), stack(cs[1:2]))
    api.snap(jax.tree_util.tree_map(lambda v: v[0], got), cfg).near(api.snap(want[0], cfg), "pmap", TOL[cfg["dtype"]])
    got = sut("linearize of a step", lambda: jax.linearize(lambda c: f(c, hps[3], ups[3])[0], cs[1])[0])
    api.snap(got, cfg).near(api.snap(want[0], cfg), "linearize", TOL[cfg["dtype"]])


SUBCHECKS = [
    SubCheck("batched", cases, run_batched, 5),
    SubCheck("closure", cases, run_closure, 8),
    SubCheck("jit-operations", cases, run_jit, 45),
    SubCheck("scan", cases, run_scan, 45),
    SubCheck("while-loop", cases, run_while, 60),
    SubCheck("vmap", cases, run_vmap, 30),
    SubCheck("jit-operations-x64", wide_cases, api.wide(run_jit), 8),
    SubCheck("scan-x64", wide_cases, api.wide(run_scan), 12),
    SubCheck("while-loop-x64", wide_cases, api.wide(run_while), 12),
    SubCheck("vmap-x64", wide_cases, api.wide(run_vmap), 6),
]
