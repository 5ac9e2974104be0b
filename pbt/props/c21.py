"""C21: differentiating through a history gives the gradients of adaptive computation time."""
import numpy as np
from hypothesis import strategies as st

from .. import api, gen, trees
from ..core import Inconclusive, SubCheck, check, check_close, sut

jax, jnp = api.jax, api.jnp

RULE = """A case is a configuration and a history of two to six steps with halting probabilities inside (0, 1), kept 1e-3 away from every
halting borderline, and the loss is a random linear function of the final accumulators, residuals and probabilities. jax.grad of the loss
with respect to the halting probabilities, every update, the initial accumulator contents and the depression constant (eager, or
compiled) is compared with the analytic gradient of the recurrence. In a second sub-check probabilities may be clamped, halted elements are
reset in between, the loss may be read through a masked view, and the history may be scanned or differentiated in forward mode (also through execute_act); the oracle is the gradient of the recurrence written out
along the path taken; second derivatives (forward over reverse, reverse over reverse) along a random direction as well. In both, hostile values (nan, inf) may be given to elements that have already halted. Non-trivial: some element halted after at least two steps and then received at least one more, or
some halted while others kept running. (x64) The same in double precision, held to 1e-10."""
ASSUMPTIONS = ["float32; gradients are compared with a relative tolerance of 1e-4",
               "derivatives at the halting borderline itself, and at probabilities of exactly 0 and 1, are not judged"]


def F(cfg):
    return api.DTYPES[cfg["dtype"]]


def U(cfg):
    """How much more exact than single precision."""
    return 1e-6 if cfg["dtype"] == "float64" else 1.0


POISON = [None, None, "nan", "inf", "-inf", "1e30"]


def poisoned(case, after, hp, ups):
    """Copies in which most of what is given to elements after they have halted (after[t, b]) is replaced by a hostile value."""
    T, n = after.shape
    pick = np.random.default_rng(case["u"]).random((T, n)) < 0.75
    bad = after & pick
    v = float(case["poison"])
    hp = np.where(bad & (np.arange(n) % 2 == 0), v, hp)
    out = []
    for t, u in enumerate(ups):
        out.append({a: {p: np.where(trees.left(bad[t].reshape(case["cfg"]["batch"]), x.ndim), v, x) for p, x in tr.items()} for a, tr in u.items()})
    return hp, out


@st.composite
def cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, max_accs=2, depth=1, batch=st.sampled_from([[2], [3], [], [2, 2]]),
                           dc=st.sampled_from([1.0, 0.5, 1.5])))
    T = draw(st.integers(2, 6))
    n = gen.nbatch(cfg["batch"])
    hp = [draw(st.lists(st.one_of(st.integers(20, 350), st.integers(20, 980)).map(lambda i: i / 1000), min_size=n, max_size=n)) for _ in range(T)]
    return {"cfg": cfg, "hp": hp, "u": draw(gen.seeds), "jit": draw(st.sampled_from([False, False, False, True])),
            "view": draw(st.booleans()), "poison": draw(st.sampled_from(POISON))}


def simulate(cfg, hp):
    """Halting step of every element (T if none), and the weights."""
    T = len(hp)
    n = gen.nbatch(cfg["batch"])
    h = np.asarray(hp, np.float64).reshape(T, n) * cfg["dc"]
    stop = np.full(n, T)
    w = np.zeros((T, n))
    p = np.zeros(n)
    thr = 1 - cfg["eps"]
    for t in range(T):
        for b in range(n):
            if stop[b] < T:
                continue
            if abs(p[b] + h[t, b] - thr) < 1e-3:
                raise Inconclusive()
            if p[b] + h[t, b] > thr:
                w[t, b] = 1 - p[b]
                stop[b] = t
                p[b] = 1
            else:
                w[t, b] = h[t, b]
                p[b] += h[t, b]
    return stop, w


def run(case, ctx):
    cfg = case["cfg"]
    batch = tuple(cfg["batch"])
    T = len(case["hp"])
    n = gen.nbatch(batch)
    stop, w = simulate(cfg, case["hp"])
    ups = [api.update_values(cfg, case["u"] + t, "normal") for t in range(T)]
    init = api.all_defaults(cfg)
    coef = {a["name"]: {p: trees.content(case["u"], "coef" + a["name"] + p, api.leaf_shape(cfg, tr), "normal")
                        for p, tr in trees.leaves(a["spec"])} for a in cfg["accs"]}
    cr = trees.content(case["u"], "coef-r", batch, "normal")
    cp = trees.content(case["u"], "coef-p", batch, "normal")

    def loss(hps, updates, starts, dc):
        b = api.ControllerBuilder.new_builder(list(batch), F(cfg), epsilon=cfg["eps"], depression_constant=dc)
        for acc in cfg["accs"]:
            b = b.define_accumulator_directly(acc["name"], trees.build(acc["spec"], lambda p, tr: starts[acc["name"]][p]))
        c = b.build()
        for t in range(T):
            for acc in cfg["accs"]:
                c = c.cache_update(acc["name"], trees.build(acc["spec"], lambda p, tr: updates[t][acc["name"]][p]))
            c = c.iterate_act(hps[t])
        total = jnp.sum(jnp.asarray(cr, F(cfg)) * c.residuals) + jnp.sum(jnp.asarray(cp, F(cfg)) * c.probabilities)
        src = c.make_viewer().mask_data(jnp.ones(batch, bool)) if case["view"] else c
        for acc in cfg["accs"]:
            for p, leaf in read_traced(src.accumulators[acc["name"]], acc["spec"]):
                total = total + jnp.sum(jnp.asarray(coef[acc["name"]][p], F(cfg)) * leaf)
        return total

    f32 = lambda x: jnp.asarray(np.asarray(x, F(cfg)))
    ghps, gups = np.asarray(case["hp"], np.float64).reshape(T, n), ups
    if case.get("poison"):
        ghps, gups = poisoned(case, np.arange(T)[:, None] > stop[None, :], ghps, ups)
        ctx.label("hostile values after halting")
    args = ([f32(np.reshape(h, batch)) for h in ghps],
            [{a: {p: f32(v) for p, v in t.items()} for a, t in u.items()} for u in gups],
            {a: {p: f32(v) for p, v in t.items()} for a, t in init.items()},
            jnp.asarray(cfg["dc"], F(cfg)))
    g = jax.grad(loss, argnums=(0, 1, 2, 3))
    if case["jit"]:
        g = jax.jit(g)
    ghp, gup, gin, gdc = sut("gradient of a history", g, *args)

    # s[t, b]: what one unit of weight at step t adds to the loss through the accumulators.
    s = np.zeros((T, n))
    for acc in cfg["accs"]:
        for p, cv in coef[acc["name"]].items():
            for t in range(T):
                s[t] += (cv * ups[t][acc["name"]][p]).reshape(n, -1).sum(axis=1)
    want_hp = np.zeros((T, n))
    crf, cpf = cr.reshape(n), cp.reshape(n)
    hp = np.asarray(case["hp"], np.float64).reshape(T, n)
    for b in range(n):
        for t in range(min(stop[b], T)):
            want_hp[t, b] = s[t, b]
            if stop[b] < T:
                want_hp[t, b] -= s[stop[b], b] + crf[b]
            else:
                want_hp[t, b] += cpf[b]
    tol = 1e-4 * U(cfg)
    check_close("gradient of the depression constant", gdc, (want_hp * hp).sum(), 5e-4 * U(cfg))
    want_hp = want_hp * cfg["dc"]
    for t in range(T):
        check_close(f"gradient of the halting probabilities of step {t}", ghp[t], want_hp[t].reshape(batch), tol)
    for acc in cfg["accs"]:
        for p, cv in coef[acc["name"]].items():
            check_close(f"gradient of the initial accumulator {acc['name']!r}{p}", gin[acc["name"]][p], cv, tol)
            for t in range(T):
                wt = trees.left(w[t].reshape(batch), cv.ndim)
                check_close(f"gradient of the update of {acc['name']!r}{p} at step {t}", gup[t][acc["name"]][p], wt * cv, tol)
    halted = stop < T
    ctx.nontrivial(bool(((stop >= 1) & (stop < T - 1)).any() or (halted.any() and not halted.all())))
    ctx.label("compiled", case["jit"])


def read_traced(tree, spec):
    return trees.objects(tree, spec, "accumulator").items()


@st.composite
def reset_cases(draw, dtypes=("float32",)):
    cfg = draw(gen.configs(dtypes=dtypes, max_accs=2, depth=1, batch=st.sampled_from([[2], [3], [], [2, 2]]),
                           dc=st.sampled_from([1.0, 0.5, 1.5])))
    T = draw(st.integers(2, 7))
    n = gen.nbatch(cfg["batch"])
    one = st.one_of(st.integers(20, 350).map(lambda i: i / 1000), st.integers(20, 980).map(lambda i: i / 1000), st.sampled_from([1.3, -0.3, 0.45]))
    hp = [draw(st.lists(one, min_size=n, max_size=n)) for _ in range(T)]
    mode = draw(st.sampled_from(["eager", "eager", "jit", "scan", "forward", "forward-layer", "second", "second-reverse"]))
    resets = draw(st.lists(st.sampled_from([False, False, True]), min_size=T, max_size=T))
    return {"cfg": cfg, "hp": hp, "u": draw(gen.seeds), "mode": mode, "reset": [False] * T if mode == "forward-layer" else resets,
            "view": draw(st.sampled_from(["none", "all", "halted", "unhalted"])), "poison": draw(st.sampled_from(POISON))}


def branch(cfg, hp, resets):
    """The path the history takes: for every step and element whether it runs, whether it halts in that step, whether its
    probability is clamped; and what a reset after that step restarts."""
    T, n = hp.shape
    run_, new, inside, restart = (np.zeros((T, n), bool) for _ in range(4))
    p = np.zeros(n)
    halted = np.zeros(n, bool)
    thr = 1 - cfg["eps"]
    for t in range(T):
        h = np.clip(hp[t], 0, 1) * cfg["dc"]
        inside[t] = (hp[t] > 0) & (hp[t] < 1)
        run_[t] = ~halted
        if np.any(np.abs(p + h - thr)[~halted] < 1e-3):
            raise Inconclusive()
        new[t] = ~halted & (p + h > thr)
        p = np.where(halted | new[t], 1.0, p + h)
        halted = halted | new[t]
        if resets[t]:
            restart[t] = halted
            p = np.where(halted, 0.0, p)
            halted = np.zeros(n, bool)
    return run_, new, inside, restart, halted


def run_reset(case, ctx):
    cfg = case["cfg"]
    batch = tuple(cfg["batch"])
    T, n = len(case["hp"]), gen.nbatch(batch)
    hp = np.asarray(case["hp"], np.float64).reshape(T, n)
    run_, new, inside, restart, halted = branch(cfg, hp, case["reset"])
    ups = [api.update_values(cfg, case["u"] + t, "normal") for t in range(T)]
    init = api.all_defaults(cfg)
    ghp, gups = (hp, ups) if not case["poison"] else poisoned(case, ~run_, hp, ups)
    leaves = [(a["name"], p) for a in cfg["accs"] for p, _ in trees.leaves(a["spec"])]
    coef = {k: trees.content(case["u"], f"coef{k}", init[k[0]][k[1]].shape, "normal") for k in leaves}
    cr = trees.content(case["u"], "coef-r", batch, "normal")
    cp = trees.content(case["u"], "coef-p", batch, "normal")
    f32 = lambda x: jnp.asarray(np.asarray(x, F(cfg)))
    stack = lambda us: {k: f32(np.stack([u[k[0]][k[1]] for u in us])) for k in leaves}
    tree = lambda acc, vals: trees.build(acc["spec"], lambda p, tr: vals[(acc["name"], p)])
    shown = {"none": np.ones(n, bool), "all": np.ones(n, bool), "halted": halted, "unhalted": ~halted}[case["view"]].reshape(batch)
    resets = np.asarray(case["reset"])

    def read(src):
        total = jnp.sum(f32(cr) * src.residuals) + jnp.sum(f32(cp) * src.probabilities)
        for acc in cfg["accs"]:
            for p, leaf in read_traced(src.accumulators[acc["name"]], acc["spec"]):
                total = total + jnp.sum(f32(coef[(acc["name"], p)]) * leaf)
        return total

    def loss(hps, updates, starts, dc):
        b = api.ControllerBuilder.new_builder(list(batch), F(cfg), epsilon=cfg["eps"], depression_constant=dc)
        for acc in cfg["accs"]:
            b = b.define_accumulator_directly(acc["name"], tree(acc, starts))
        c = b.build()

        def one(c, h, u):
            for acc in cfg["accs"]:
                c = c.cache_update(acc["name"], tree(acc, u))
            return c.iterate_act(h)

        if case["mode"] == "forward-layer":
            class Layer(api.AbstractACTTemplate):
                def make_controller(self, state, depression_constant, *args, **kwargs):
                    return c

                def setup_lazy_parameters(self, controller, state):
                    pass

                def run_iteration(self, controller, i):
                    return one(controller, hps[i], {k: v[i] for k, v in updates.items()}), i + 1

            c, _ = Layer().execute_act(jnp.asarray(0), dc, T)
        elif case["mode"] == "scan":
            def body(c, x):
                h, u, r = x
                c = one(c, h, u)
                return jax.lax.cond(r, lambda c: c.reset_batches(), lambda c: c, c), None
            c, _ = jax.lax.scan(body, c, (hps, updates, jnp.asarray(resets)))
        else:
            for t in range(T):
                c = one(c, hps[t], {k: v[t] for k, v in updates.items()})
                if resets[t]:
                    c = c.reset_batches()
        if case["view"] == "none":
            return read(c)
        v = c.make_viewer()
        return read({"all": lambda: v.mask_data(jnp.ones(batch, bool)), "halted": v.halted_only, "unhalted": v.unhalted_only}[case["view"]]())

    def reference(hps, updates, starts, dc):
        """The loss along the path taken, written out; every choice in it is a constant."""
        at = lambda m: jnp.asarray(m.reshape(batch))
        wide = lambda m, x: jnp.reshape(m, m.shape + (1,) * (x.ndim - m.ndim))
        p = r = jnp.zeros(batch)
        acc = dict(starts)
        for t in range(T):
            h = dc * jnp.where(at(inside[t]), hps[t], f32(np.clip(hp[t], 0, 1).reshape(batch)))
            w = jnp.where(at(new[t]), 1 - p, jnp.where(at(run_[t]), h, 0.0))
            r = jnp.where(at(new[t]), 1 - p, r)
            for k in leaves:
                u = updates[k][t]
                acc[k] = acc[k] + wide(w, u) * u
            p = p + w
            if resets[t]:
                p = jnp.where(at(restart[t]), 0.0, p)
                r = jnp.where(at(restart[t]), 0.0, r)
                acc = {k: jnp.where(wide(at(restart[t]), v), starts[k], v) for k, v in acc.items()}
        total = jnp.sum(f32(cr * shown) * r) + jnp.sum(f32(cp * shown) * p)
        for k in leaves:
            total = total + jnp.sum(f32(coef[k] * trees.left(shown, coef[k].ndim)) * acc[k])
        return total

    starts = {k: f32(init[k[0]][k[1]]) for k in leaves}
    dc = jnp.asarray(cfg["dc"], F(cfg))
    if case["mode"].startswith("forward"):
        at_got = (f32(ghp.reshape((T,) + batch)), stack(gups), starts, dc)
        at_want = (f32(hp.reshape((T,) + batch)), stack(ups), starts, dc)
        flat, treedef = jax.tree_util.tree_flatten(at_want)
        along = treedef.unflatten([f32(trees.content(case["u"], f"tangent{i}", x.shape, "normal")) for i, x in enumerate(flat)])
        got = sut(f"derivative of a history ({case['mode']})", jax.jvp, loss, at_got, along)
        want = jax.jvp(reference, at_want, along)
        check_close("the loss", got[0], want[0], 5e-4 * U(cfg))
        check_close("its directional derivative", got[1], want[1], 2e-3 * U(cfg))
        ctx.nontrivial(bool((~run_).any() or restart.any()))
        ctx.label("hostile values after halting", bool(case["poison"]) and bool((~run_).any()))
        ctx.label(case["mode"])
        return
    if case["mode"].startswith("second"):
        at_got = (f32(ghp.reshape((T,) + batch)), stack(gups), starts, dc)
        at_want = (f32(hp.reshape((T,) + batch)), stack(ups), starts, dc)
        flat, treedef = jax.tree_util.tree_flatten(at_want)
        along = treedef.unflatten([f32(trees.content(case["u"], f"tangent{i}", x.shape, "normal")) for i, x in enumerate(flat)])

        def second(f, at):
            g = jax.grad(f, argnums=(0, 1, 2, 3))
            if case["mode"] == "second":
                return jax.jvp(lambda *a: g(*a), at, along)[1]
            dot = lambda *a: sum(jnp.sum(x * y) for x, y in zip(jax.tree_util.tree_leaves(g(*a)), jax.tree_util.tree_leaves(along)))
            return jax.grad(dot, argnums=(0, 1, 2, 3))(*at)

        got, want = sut(f"second derivatives of a history ({case['mode']})", second, loss, at_got), second(reference, at_want)
        for part, x, y in zip(("halting probabilities", "updates", "initial accumulators", "depression constant"), got, want):
            for a, b in zip(jax.tree_util.tree_leaves(x), jax.tree_util.tree_leaves(y)):
                check_close(f"second derivative, {part}", a, b, 2e-3 * U(cfg))
        ctx.nontrivial(bool((~run_).any() or restart.any()))
        ctx.label(case["mode"])
        return
    g = jax.value_and_grad(loss, argnums=(0, 1, 2, 3))
    if case["mode"] == "jit":
        g = jax.jit(g)
    got, (ghps, gus, gst, gdc) = sut(f"gradient of a history ({case['mode']})", g, f32(ghp.reshape((T,) + batch)), stack(gups), starts, dc)
    want, (whps, wus, wst, wdc) = jax.value_and_grad(reference, argnums=(0, 1, 2, 3))(f32(hp.reshape((T,) + batch)), stack(ups), starts, dc)
    tol = 2e-4 * U(cfg)
    check_close("the loss", got, want, 5e-4 * U(cfg))
    check_close("gradient of the depression constant", gdc, wdc, 1e-3 * U(cfg))
    check_close("gradient of the halting probabilities", ghps, whps, tol)
    for k in leaves:
        check_close(f"gradient of the initial accumulator {k}", gst[k], wst[k], tol)
        check_close(f"gradient of the updates of {k}", gus[k], wus[k], tol)
    ctx.nontrivial(bool((~run_).any() or restart.any()))
    ctx.label("reset", bool(restart.any()))
    ctx.label("hostile values after halting", bool(case["poison"]) and bool((~run_).any()))
    ctx.label(case["mode"])


SUBCHECKS = [SubCheck("gradients", cases, run, 40), SubCheck("gradients-with-resets", reset_cases, run_reset, 25),
             SubCheck("gradients-x64", lambda: cases(("float64",)), api.wide(run), 10),
             SubCheck("gradients-with-resets-x64", lambda: reset_cases(("float64",)), api.wide(run_reset), 8)]
