"""C19: a Flax ACT layer computes what its parameters say, however Flax runs it."""
import numpy as np
from hypothesis import strategies as st

from .. import api, flaxlayers as fl, gen, trees
from ..core import Inconclusive, SubCheck, check, check_bits, check_close, must_raise, sut
from ..model import Borderline, Model

jax, jnp = api.jax, api.jnp
from flax import linen as nn  # noqa: E402
from flax.core import FrozenDict  # noqa: E402

RULE = """A case is a Flax ACT layer of generated sizes, parameters and settings (batch shape, inline or attribute submodules, plain or
tree state, epsilon, depression constant, iteration limit, error checking, extra keyword arguments) run one way: init then apply, apply with generated parameters, init_with_output,
jit, a mutable parameter collection, or nested (once or twice) inside another module. Outputs and final state are compared with a numpy
unrolling of the same parameters; cases where a cumulative probability is within 2e-4 of the threshold are inconclusive. Non-trivial: at
least two iterations ran."""
ASSUMPTIONS = ["Layers define their submodules in setup, as the class requires."]

BATCH = [[2], [3], [1], [2, 2], [4]]


@st.composite
def cases(draw):
    return {
        "batch": draw(st.sampled_from(BATCH)),
        "features": draw(st.sampled_from([3, 2, 4])),
        "outputs": draw(st.sampled_from([2, 1])),
        "eps": draw(st.sampled_from([1e-4, 0.25, 0.0625, 1e-6, 1e-3])),
        "dc": draw(st.sampled_from([1.0, 0.5, 0.25])),
        "limit": draw(st.sampled_from([10, 3, 1, 20, 0])),
        "checks": draw(st.booleans()),
        "inline": draw(st.booleans()),
        "tree": draw(st.booleans()),
        "fill": draw(st.sampled_from([None, None, 1.5])),
        "bias": draw(st.sampled_from([-2.0, -1.0, 0.0, -3.0])),
        "scale": draw(st.sampled_from([0.5, 1.0])),
        "seed": draw(gen.seeds),
        "how": draw(st.sampled_from(["apply", "jit", "init", "init_with_output", "mutable", "nested", "nested-twice", "method", "bind", "vmap", "eval_shape"])),
        # Something of its own that the layer sets up before its first iteration.
        "extra": draw(st.sampled_from(["", "", "param", "variable", "before"])),
    }


def settings_of(case):
    return dict(features=case["features"], outputs=case["outputs"], limit=case["limit"], dc=case["dc"], eps=case["eps"],
                checks=case["checks"], inline=case["inline"], tree_state=case["tree"], extra=case.get("extra", ""))


def param_shapes(case):
    f, o = case["features"], case["outputs"]
    dense = lambda i, j: {"kernel": (i, j), "bias": (j,)}
    core = {"one": dense(f, f), "two": dense(f, f)} if case["inline"] else dense(f, f)
    extra = {"param": {"shift": (f,)}, "before": {"before": dense(f, f)}}.get(case.get("extra"), {})
    return {"core": core, "halt": dense(f, 1), "out": dense(f, o), **extra}


def walk(tree, path=""):
    if isinstance(tree, (dict, FrozenDict)):
        for k in tree:
            yield from walk(tree[k], f"{path}/{k}")
    else:
        yield path, tree


def make_params(case, shapes, path=""):
    if isinstance(shapes, dict):
        return {k: make_params(case, v, f"{path}/{k}") for k, v in shapes.items()}
    v = trees.content(case["seed"], path, shapes, "normal") * case["scale"]
    if path.endswith("/halt/bias"):
        v = np.full(shapes, case["bias"])
    return jnp.asarray(v, jnp.float32)


def check_params(params, shapes, what):
    got = {p: tuple(np.shape(v)) for p, v in walk(params)}
    want = {p: tuple(v) for p, v in walk(shapes)}
    check(got == want, lambda: f"{what}: the parameters are {got}, the layer declares {want}")
    for p, v in walk(params):
        check(bool(np.all(np.isfinite(np.asarray(v)))), f"{what}: parameter {p} is not finite")


def reference(case, params, x):
    batch = case["batch"]
    fill = case["fill"] or 0.0
    defaults = {"state": {"": np.zeros(batch + [case["features"]])},
                "out": {"/y": np.full(batch + [case["outputs"]], fill), "/n/0": np.full(batch, fill)}}
    m = Model(batch, case["eps"], case["dc"], defaults, guard=2e-4)
    try:
        shift = np.asarray(params["shift"], np.float64) if case.get("extra") == "param" else (0.25 if case.get("extra") == "variable" else 0.0)
        if case.get("extra") == "before":
            x = fl.np_dense(params["before"], np.asarray(x, np.float64))
        final, n = fl.np_run(m, params, x, case["limit"], case["inline"], shift)
    except Borderline:
        raise Inconclusive()
    return m, final, n


def compare(case, what, c, m, final, want_final, n, tol=3e-4):
    check(isinstance(c, api.ACT_Controller), f"{what}: gave {type(c).__name__}")
    check_close(f"{what}: probabilities", c.probabilities, m.p, tol)
    check_close(f"{what}: residuals", c.residuals, m.r, tol)
    check_close(f"{what}: iterations", c.iterations, m.it, 1e-6)
    check_close(f"{what}: state accumulator", c.accumulators["state"], m.acc["state"][""], tol)
    out = c.accumulators["out"]
    check_close(f"{what}: output accumulator", out["y"], m.acc["out"]["/y"], tol)
    check_close(f"{what}: weight accumulator", out["n"][0], m.acc["out"]["/n/0"], tol)
    check(not c.has_cached_updates, f"{what}: updates are pending")
    for field in ("probabilities", "residuals", "iterations"):
        check(str(getattr(c, field).dtype) == "float32", lambda: f"{what}: {field} are {getattr(c, field).dtype}")
    got = float(np.asarray(c.halt_threshold))
    check(abs(got - (1 - case["eps"])) < 2e-7, lambda: f"{what}: the halt threshold is {got}, epsilon is {case['eps']}")
    check(abs(float(np.asarray(c.depression_constant)) - case["dc"]) < 1e-6, lambda: f"{what}: the depression constant is {c.depression_constant}, not {case['dc']}")
    if final is not None:
        if case["tree"]:
            check(int(final["count"]) == n, lambda: f"{what}: {int(final['count'])} iterations, the plain loop makes {n}")
            final = final["x"]
        check_close(f"{what}: final state", final, want_final, tol)


def run(case, ctx):
    how = case["how"]
    if how.startswith("nested"):
        case = dict(case, fill=None, extra="" if case.get("extra") == "variable" else case.get("extra", ""))
    log = fl.Trace()
    x = jnp.asarray(trees.content(case["seed"], "input", case["batch"] + [case["features"]], "normal"), jnp.float32)
    kwargs = {} if case["fill"] is None else {"fill": case["fill"]}
    layer = fl.PonderLayer(**settings_of(case))
    shapes = param_shapes(case)
    params = make_params(case, shapes)
    key = jax.random.PRNGKey(case["seed"])
    constants = {"constants": {"shift": jnp.full(case["features"], 0.25)}} if case.get("extra") == "variable" else {}
    what = f"{how} (limit {case['limit']}, checks {case['checks']})"
    if how.startswith("nested"):
        twice = how.endswith("twice")
        parent = fl.Parent(settings_of(case), twice)
        f = case["features"]
        all_shapes = {"pre": {"kernel": (f, f), "bias": (f,)}, "act": shapes, "post": {"kernel": (f, 2), "bias": (2,)}}
        inited = sut(f"{what}: init", parent.init, key, x)
        check_params(inited["params"], all_shapes, what)
        allp = make_params(case, all_shapes)
        first, c, post = sut(f"{what}: apply", parent.apply, {"params": allp}, x)
        m, want, n = reference(case, allp["act"], fl.np_dense(allp["pre"], np.asarray(x, np.float64)))
        compare(case, what + ", first use", first, m, None, None, n)
        if twice:
            m, want, n2 = reference(case, allp["act"], m.acc["state"][""])
            compare(case, what + ", second use", c, m, None, None, n2, 2e-3)
        check_close(f"{what}: output of the parent", post, fl.np_dense(allp["post"], m.acc["state"][""]), 5e-3)
    else:
        if how in ("init", "init_with_output"):
            if how == "init":
                variables = sut(what, layer.init, key, x, **kwargs)
            else:
                (c, final), variables = sut(what, layer.init_with_output, key, x, **kwargs)
            check(set(variables) == ({"params", "constants"} if case.get("extra") == "variable" else {"params"}), lambda: f"{what}: init made collections {sorted(variables)}")
            params = variables["params"]
            check_params(params, shapes, what)
            if how == "init":
                again = sut(what, layer.init, key, x, **kwargs)["params"]
                for (p, a), (_, b) in zip(walk(params), walk(again)):
                    check_bits(f"{what}: init is not deterministic at {p}", a, b)
                c, final = sut(f"{what}: apply", layer.apply, variables, x, **kwargs)
        elif how == "apply":
            layer = fl.PonderLayer(**settings_of(case), trace=log)
            c, final = sut(what, layer.apply, {"params": params, **constants}, x, **kwargs)
            makes = [e for e in log.events if e[0] == "make"]
            check(len(makes) == 1, lambda: f"{what}: make_controller was called {len(makes)} times")
            check(float(makes[0][2]) == case["dc"] and makes[0][3] == () and makes[0][4] == kwargs,
                  lambda: f"{what}: make_controller got {makes[0][2:]}, passed {case['dc']}, {kwargs}")
        elif how == "jit":
            c, final = sut(what, jax.jit(lambda p, x: layer.apply({"params": p, **constants}, x, **kwargs)), params, x)
        elif how == "method":
            c, final = sut(what, layer.apply, {"params": params, **constants}, x, method="ponder", **kwargs)
        elif how == "bind":
            c, final = sut(what, lambda: layer.bind({"params": params, **constants}).ponder(x, **kwargs))
        elif how == "vmap":
            both = sut(what, jax.vmap(lambda x: layer.apply({"params": params, **constants}, x, **kwargs)), jnp.stack([jnp.zeros_like(x), x]))
            c, final = jax.tree_util.tree_map(lambda v: v[1], both)
        elif how == "eval_shape":
            (c, final), made = sut(what, jax.eval_shape, lambda k, x: layer.init_with_output(k, x, **kwargs), key, x)
            check({p: tuple(v.shape) for p, v in walk(made["params"])} == {p: tuple(v) for p, v in walk(shapes)}, f"{what}: other parameters than the layer declares")
            shapes_of = lambda tree: [(v.shape, str(v.dtype)) for v in jax.tree_util.tree_leaves(tree)]  # noqa: E731
            promised = shapes_of((c, final))
            c, final = sut(f"{what}: apply", layer.apply, {"params": params, **constants}, x, **kwargs)
            check(promised == shapes_of(jax.tree_util.tree_map(jnp.asarray, (c, final))), f"{what}: the result is of other shapes or dtypes")
        else:
            (c, final), changed = sut(what, layer.apply, {"params": params, **constants}, x, mutable=["params"], **kwargs)
            got = dict(walk(changed.get("params", params)))
            for p, v in walk(params):
                check(p in got, lambda: f"{what}: the parameters lost {p}")
                check_bits(f"{what}: parameter {p}", got[p], v)
        m, want, n = reference(case, params, x)
        compare(case, what, c, m, final, want, n)
    ctx.nontrivial(n >= 2)
    ctx.label(how)
    ctx.label("stopped at the limit", n == case["limit"] and not bool(m.halted.all()))


@st.composite
def lifted_cases(draw):
    return dict(draw(cases()), how="lifted", fill=None, tree=False, extra=draw(st.sampled_from(["", "param", "before"])), limit=draw(st.sampled_from([10, 3, 1, 6])), times=draw(st.integers(2, 3)),
                lift=draw(st.sampled_from(["scan", "vmap", "vmap-shared", "remat", "jit", "plain", "act-attribute", "act-inline"])),
                compiled=draw(st.booleans()), outer=draw(st.sampled_from([4, 2, 1, 0])))


def run_lifted(case, ctx):
    """The layer inside of the lifted transforms of Flax, and inside of another ACT layer."""
    lift, times = case["lift"], case["times"]
    cfg = settings_of(case)
    f = case["features"]
    x = trees.content(case["seed"], "input", case["batch"] + [f], "normal")
    xj = jnp.asarray(x, jnp.float32)
    x = np.asarray(xj, np.float64)
    shapes = param_shapes(case)
    nested_act = lift.startswith("act")
    what = f"{lift} (limit {case['limit']})"
    if nested_act:
        module = fl.Outer(cfg, case["outer"], lift == "act-attribute")
        inner = shapes if lift == "act-attribute" else {"act": shapes}
        declared = {"inner": inner, "halt": {"kernel": (f, 1), "bias": (1,)}}
    else:
        module = fl.Lifted(cfg, lift, times)
        if lift == "vmap":
            stacked = lambda s: {k: stacked(v) for k, v in s.items()} if isinstance(s, dict) else (times,) + s  # noqa: E731
            declared = {"it": {"act": stacked(shapes)}}
        elif lift == "scan":
            declared = {"it": {"one": {"act": shapes}}}
        else:
            declared = {"it": {"act": shapes}}
    inited = sut(f"{what}: init", module.init, jax.random.PRNGKey(case["seed"]), xj)
    check_params(inited["params"], declared, what)
    params = make_params(case, declared)
    apply = jax.jit(module.apply) if case["compiled"] else module.apply
    out = sut(f"{what}: apply", apply, {"params": params}, xj)
    if nested_act:
        p = params["inner"] if lift == "act-attribute" else params["inner"]["act"]
        m = Model(case["batch"], case["eps"], case["dc"], {"x": {"": np.zeros(x.shape)}}, guard=2e-4)
        n, state = 0, x
        try:
            while n < case["outer"] and not m.halted.all():
                state = reference(case, p, state)[0].acc["state"][""]
                hp = 1 / (1 + np.exp(-fl.np_dense(params["halt"], state)))[..., 0]
                m.step(hp, {"x": {"": state}})
                n += 1
        except Borderline:
            raise Inconclusive()
        c, final = out
        check_close(f"{what}: accumulator", c.accumulators["x"], m.acc["x"][""], 3e-3)
        check_close(f"{what}: probabilities", c.probabilities, m.p, 3e-3)
        check_close(f"{what}: residuals", c.residuals, m.r, 3e-3)
        check_close(f"{what}: iterations", c.iterations, m.it, 0)
        check_close(f"{what}: final state", final, state, 3e-3)
        ctx.nontrivial(n >= 2)
    else:
        want = []
        if lift == "scan":
            for _ in range(times):
                x = reference(case, params["it"]["one"]["act"], x)[0].acc["state"][""]
                want.append(x)
        elif lift.startswith("vmap"):
            for i in range(times):
                p = params["it"]["act"]
                if lift == "vmap":
                    p = jax.tree_util.tree_map(lambda v: v[i], p)
                want.append(reference(case, p, x * (i + 1))[0].acc["state"][""])
        else:
            want.append(reference(case, params["it"]["act"], x)[0].acc["state"][""])
        check(out.shape == (len(want),) + tuple(xj.shape), lambda: f"{what}: gave shape {out.shape}")
        for i, w in enumerate(want):
            check_close(f"{what}: state accumulator {i}", out[i], w, 3e-3)
        ctx.nontrivial(case["limit"] >= 2)
    ctx.label(lift)


@st.composite
def noisy_cases(draw):
    return {"batch": draw(st.sampled_from(BATCH)), "hp": draw(st.lists(st.sampled_from([0.0625, 0.125, 0.25, 0.375]), min_size=1, max_size=3)),
            "limit": draw(st.sampled_from([10, 4, 2, 7])), "drop": draw(st.booleans()), "seed": draw(gen.seeds), "jit": draw(st.booleans())}


def run_noisy(case, ctx):
    """Random numbers drawn in the iterations: anew in each of them, and reproducibly."""
    layer = fl.Noisy(tuple(case["hp"]), case["limit"], case["drop"])
    x = jnp.asarray(trees.content(case["seed"], "input", case["batch"] + [3], "normal"), jnp.float32)
    keys = lambda s: dict(zip(("params", "noise", "dropout"), jax.random.split(jax.random.PRNGKey(s), 3)))  # noqa: E731
    key = keys(case["seed"])
    what = "dropout in an iteration" if case["drop"] else "make_rng in an iteration"
    variables = sut(f"{what}: init", layer.init, key, x)
    rngs = {"noise": key["noise"], "dropout": key["dropout"]}
    go = lambda r: layer.apply(variables, x, rngs=r)  # noqa: E731
    c, (n, _, book) = sut(f"{what}: apply", jax.jit(go) if case["jit"] else go, rngs)
    n, book = int(n), np.asarray(book, np.float64)
    shape = case["batch"] + [3]
    m = Model(case["batch"], 1e-4, 1.0, {"noise": {"": np.zeros(shape)}})
    k = 0
    while k < case["limit"] and not m.halted.all():
        m.step(np.full(case["batch"], case["hp"][k % len(case["hp"])]), {"noise": {"": book[k][..., :3]}})
        k += 1
    check(n == k, lambda: f"{what}: {n} iterations, the plain loop makes {k}")
    check_close(f"{what}: accumulator", c.accumulators["noise"], m.acc["noise"][""], 1e-5)
    check_close(f"{what}: probabilities", c.probabilities, m.p, 1e-5)
    check(bool(np.all(np.isfinite(book))), f"{what}: not finite")
    if case["drop"]:
        check(bool(np.all((book[:n] == 0) | (book[:n] == 2))), lambda: f"{what}: gave {book[:n].tolist()}")
    check(bool(np.all(book[n:] == 0)), f"{what}: wrote past the last iteration")
    for i in range(n):
        for j in range(i):
            check(not np.array_equal(book[i], book[j]), lambda: f"{what}: iterations {j} and {i} drew the same numbers")
    again = sut(f"{what}: apply again", go, rngs)[1][2]
    check_close(f"{what}: the same keys again", again, book, 1e-6)
    other = keys(case["seed"] + 1)
    different = sut(f"{what}: apply with other keys", go, {"noise": other["noise"], "dropout": other["dropout"]})[1][2]
    check(not np.array_equal(np.asarray(different), book), f"{what}: other keys made no difference")
    ctx.nontrivial(n >= 2)


@st.composite
def unfinished_cases(draw):
    return {"batch": draw(st.sampled_from(BATCH)), "features": draw(st.sampled_from([1, 2, 3])), "seed": draw(gen.seeds),
            "how": draw(st.sampled_from(["init", "apply", "jit"]))}


def run_unfinished(case, ctx):
    x = jnp.ones(case["batch"] + [case["features"]])
    layer = fl.Unfinished()
    key = jax.random.PRNGKey(case["seed"])
    if case["how"] == "init":
        must_raise("init of a layer without setup", NotImplementedError, layer.init, key, x)
    elif case["how"] == "apply":
        must_raise("apply of a layer without setup", NotImplementedError, layer.apply, {"params": {}}, x)
    else:
        must_raise("jit of a layer without setup", NotImplementedError, jax.jit(lambda x: layer.apply({"params": {}}, x)), x)
    ctx.nontrivial()


SUBCHECKS = [SubCheck("flax", cases, run, 24), SubCheck("lifted", lifted_cases, run_lifted, 10), SubCheck("random-numbers", noisy_cases, run_noisy, 5),
             SubCheck("setup-required", unfinished_cases, run_unfinished, 4)]
