"""Writes properties.jsonl and MANIFEST.json from one description. Run by hand after a change."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CTL = "src/jax_act/core/controller.py"
BLD = "src/jax_act/core/builder.py"
VIEW = "src/jax_act/core/viewer.py"
EDIT = "src/jax_act/core/tensoreditor.py"
STATES = "src/jax_act/core/states.py"
UTIL = "src/jax_act/core/utils.py"
IMM = "src/jax_act/core/immutable.py"
ACT = "src/jax_act/layers/act.py"
CORE = "src/jax_act/layers/core.py"
FLAX = "src/jax_act/frameworks/flax.py"

PROP_NOTE = "float comparisons carry a stated tolerance per dtype"

# id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], state, observe, technique, level note
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, technique=technique, note=" ".join(note.split()),
                  state=state, observe=list(observe)))


S_STATE = [("probabilities", "cumulative halting probability per batch element", STATES + ":ACTStates"),
           ("residuals", "probability left over when an element halted", STATES + ":ACTStates"),
           ("iterations", "steps an element took part in", STATES + ":ACTStates"),
           ("accumulators", "weighted sums of the updates", STATES + ":ACTStates")]

prop("C01", "Every history follows the adaptive computation time recurrence",
     """For every history of cached updates, steps and resets, the probabilities, residuals, iteration counts, accumulators and halting
     flags a controller shows are those of the ACT recurrence: the halting probability is clamped to [0, 1] and scaled by the depression constant; an element
     whose cumulative probability reaches the threshold 1-epsilon halts in that step, receives exactly the probability left over, and records it as its
     residual; accumulators add probability times update; iterations count the steps taken before halting, the halting step included.
     This holds for every batch shape, threshold, depression constant and set of (possibly nested) accumulators, eagerly and across save/load.""",
     ["histories", "inputs", "configurations"],
     "All sequences of steps/resets/hand-overs with arbitrary halting probabilities and updates, over all batch shapes (rank 0-3), epsilons, depression constants and accumulator layouts.",
     "The tests step small hand-written cases with constant inputs, one or two steps, one batch rank; the recurrence quantifies over histories in which elements halt at different steps and restart.",
     [CTL, UTIL], [("probability clamping and residuals", CTL + ":_process_probabilities"), ("weight and add", CTL + ":_update_accumulator"),
                   ("step", CTL + ":iterate_act"), ("restart", CTL + ":reset_batches"), ("broadcast from the left", UTIL + ":setup_left_broadcast")],
     "stateful model-based property testing against a float64 reference model",
     "Generated histories are compared with an independent float64 model after every operation; bounded histories (up to 10 operations), batch rank up to 3.",
     S_STATE, ["ACT_Controller properties after every operation"])

prop("C02", "Total probability is conserved and weights everything accumulated",
     """In every history the cumulative probability of an element never decreases, never exceeds one and is exactly one once it has halted, and the probabilities
     it was given over its steps - the last one being its residual - add up to it. Everything accumulated is a combination of updates with precisely these weights, so that an
     accumulator fed constant updates ends at exactly that constant, and the ponder cost (iterations plus residual) follows from the same history. This holds however far
     halting probabilities are out of range and however large the depression constant is.""",
     ["histories", "inputs", "configurations"],
     "All histories of steps run until elements halt, including out-of-range halting probabilities and depression constants above one.",
     "Tests check single steps against fixed expected arrays; conservation is a statement about whole histories and every input.",
     [CTL], [("clamping to the remainder", CTL + ":_process_probabilities"), ("weight and add", CTL + ":_update_accumulator"), ("clipping", CTL + ":iterate_act")],
     "property-based testing with history invariants (conservation, probe accumulator)",
     "Invariants that relate observed quantities only, with no model of the recurrence; relative tolerance 2e-5 in float32.", S_STATE)

prop("C03", "A halted batch element is frozen, whatever happens afterwards",
     """Once a batch element has halted, its probability, residual, iteration count and every accumulated value stay bit-identical through all further
     steps until it is reset, whatever halting probabilities and updates (including NaN, infinities and huge values) are given for it. Elements that have not halted
     keep being processed normally, and nothing fed to a halted element leaks into them.""",
     ["histories", "inputs"],
     "All histories with staggered halting followed by arbitrary, including non-finite, inputs at the halted elements; eager and inside a compiled scan.",
     "Tests never step with non-finite values or far beyond the halting point with adversarial updates.",
     [CTL], [("selecting the old accumulators where halted", CTL + ":_update_accumulator"), ("selecting old iterations", CTL + ":iterate_act"), ("residual only where newly halting", CTL + ":_process_probabilities")],
     "property-based testing, bit-exact invariant over poisoned histories",
     "Bit comparison of all per-element data of halted elements through poisoned steps, eagerly and under jit+scan.", S_STATE)

prop("C04", "Batch elements are independent of each other",
     """What happens to a batch element depends only on its own halting probabilities, updates and defaults: permuting, selecting, duplicating or reshaping
     batch elements of a history permutes, selects, duplicates or reshapes its results and changes nothing else. Resets and views act element by element in the same way.""",
     ["histories", "inputs", "configurations"],
     "All histories and all index maps between batches (permutation, sub-batch, repetition, other rank).",
     "Tests use a single batch layout per test and never relate two runs.",
     [CTL, UTIL, VIEW], [("broadcast over trailing dimensions", UTIL + ":setup_left_broadcast"), ("elementwise selects", CTL + ":_process_probabilities"), ("element-wise reset", CTL + ":reset_batches")],
     "metamorphic property-based testing (gathered batches)",
     "Metamorphic relation between a run and a run on a gathered batch; tolerances cover compiled-shape rounding only.", S_STATE)

prop("C05", "Accumulators are independent of naming, order, layout and each other",
     """The result of an accumulator depends only on its own definition, defaults and updates and on the halting probabilities: other accumulators, their names, the order in which
     accumulators are defined and updates cached, and whether data lives in one nested container or several accumulators make no difference. Probabilities, residuals and
     iterations do not depend on accumulators at all.""",
     ["histories", "configurations", "inputs"],
     "All histories over two to four accumulators and all variants: fewer, renamed, re-ordered, split into leaves, packed into a container.",
     "Tests define one or two accumulators in one order.",
     [CTL, UTIL, STATES], [("per-name update loop", CTL + ":iterate_act"), ("leaf pairing", UTIL + ":merge_pytrees"), ("cache by name", CTL + ":cache_update")],
     "metamorphic property-based testing (re-layout of accumulators)", "Metamorphic relation between layouts of the same data.", S_STATE)

prop("C06", "Reset returns exactly the halted elements to a fresh start",
     """A reset sets probability, residual and iterations of every halted element to zero and each of its accumulated values - in arrays and nested containers alike - to the
     current default, leaves every other element bit-identical, and does nothing when no element has halted. It is refused while updates are pending. A restarted element then behaves exactly like one of a new controller.""",
     ["histories", "configurations"],
     "All histories of steps, edits of defaults, repeated resets and continued steps.",
     "The one reset test uses a single array accumulator and a single reset; it cannot show non-zero defaults, nested containers, repeated resets or what follows.",
     [CTL], [("reset", CTL + ":reset_batches"), ("left broadcast of the selector", UTIL + ":setup_left_broadcast")],
     "property-based testing, invariant plus differential against a fresh controller",
     "Bit comparison for untouched elements; restarted elements are compared with a brand-new controller stepped alike.", S_STATE)

prop("C07", "Misuse of the update protocol is refused and leaves nothing half done",
     """Each step needs exactly one cached update per accumulator, with as many leaves as the accumulator and the same shapes, and halting probabilities of exactly the batch shape: caching
     twice, caching or looking up an unknown name, stepping with a missing or ill-formed update or wrongly shaped (even if broadcastable) halting probabilities, and resetting
     with updates pending all raise and leave the controller usable and unchanged. The flags for pending and complete updates tell the truth at every point, and a completed step clears all pending updates.""",
     ["histories", "inputs"],
     "All sequences of legal and illegal protocol operations.",
     "Tests raise a few of these errors once each, from a fresh controller; no test mixes them in sequences or looks at the state afterwards.",
     [CTL, UTIL], [("duplicate and unknown names", CTL + ":cache_update"), ("missing updates and shapes", CTL + ":iterate_act, _update_accumulator"), ("pending updates at reset", CTL + ":reset_batches"),
                   ("flags", CTL + ":updates_ready_to_commit, has_cached_updates"), ("container mismatch", UTIL + ":merge_pytrees")],
     "stateful model-based property testing with illegal operations",
     "A model decides legality; every illegal operation must raise and leave all observable state as it was.",
     [("updates", "the pending update of each accumulator, or none", STATES + ":ACTStates")])

prop("C08", "Nothing is modified in place; old versions stay valid",
     """No operation of a controller, builder, viewer or editor changes the object it is called on, any earlier version, or any argument passed to it, and none of their attributes can be
     assigned or newly created. Any earlier version can be continued later, any number of times, with the same result as if the others had never been made.""",
     ["histories", "programs"],
     "All branching sequences of operations over all versions ever made.",
     "Tests discard old versions; aliasing shows only in branching histories.",
     [IMM, CTL, BLD, EDIT, VIEW, STATES], [("attribute protection", IMM + ":Immutable"), ("copying dictionaries before change", CTL + ":cache_update, iterate_act; " + EDIT + ":set_*; " + BLD + ":_define"), ("state replacement", STATES + ":replace")],
     "stateful property-based testing over branching version histories",
     "Every version is snapshotted when made and compared at the end; branches are replayed alone.", S_STATE)

prop("C09", "Compiling, scanning, looping or vectorising does not change results",
     """Running a history of steps, resets, views and edits under jit, scan, while_loop, cond or vmap gives the results of running it operation by operation: controllers, viewers and editors can be passed in, carried
     and returned with their structure intact, with generated values - threshold and depression constant included - traced.""",
     ["histories", "programs", "inputs"],
     "All histories over several layouts, under five JAX transformations.",
     "Tests jit single calls with fixed values.",
     [CTL, VIEW, EDIT, STATES], [("pytree registration", CTL + ":flatten_controller; " + VIEW + ":flatten_viewer; " + EDIT + ":flatten_editor; " + STATES + ":state_flatten"), ("traceable selects", CTL + ":_process_probabilities")],
     "differential property-based testing (eager vs transformed)", "Differential between eager and transformed runs, relative tolerance 2e-5.", S_STATE)

prop("C10", "Every object survives flattening, saving and loading unchanged",
     """Flattening and unflattening, mapping the identity over, saving and loading a controller, viewer, editor, builder or saved state - at any point of a history, with any subset of updates pending -
     gives back an object with every field, container structure, dtype and error mode in its own place, and further operations give the same results as without the round trip.""",
     ["histories", "configurations"],
     "All states reachable by steps, resets, cached updates and edits; all chains of round trips.",
     "The state test flattens one hand-made state and cannot see swapped fields of equal values.",
     [STATES, CTL, VIEW, EDIT, BLD], [("state flattening", STATES + ":state_flatten, state_unflatten"), ("object flattening", CTL + ":flatten_controller"), ("editor error mode as static data", EDIT + ":flatten_editor"), ("builder flattening", BLD + ":flatten_builder")],
     "round-trip property-based testing", "Bit-exact round trips with distinct generated values in every field.", S_STATE)

prop("C11", "A built controller starts out exactly as it was described",
     """A new controller has zero probabilities, residuals and iterations of the requested batch shape and floating dtype, the requested threshold and depression constant, no pending updates, and for each defined accumulator the
     defined structure, shapes, dtype and values - both as its default and as its current value. Later definitions never disturb earlier ones, and defining a name again replaces it.""",
     ["inputs", "configurations", "programs"],
     "All batch shapes (int, list, tuple), dtypes, thresholds, depression constants, and sequences of definitions by shape or by value.",
     "Builder tests define one accumulator at a time and compare few fields.",
     [BLD, STATES], [("core tensors", BLD + ":new_builder"), ("definition by value and by shape", BLD + ":define_accumulator_directly, define_accumulator_by_shape, _define"), ("building", BLD + ":build")],
     "property-based testing against the description", "Field-by-field comparison with the generated description after each definition.", S_STATE)

prop("C12", "A definition is accepted exactly when it is valid, and a refusal is clean",
     """An accumulator definition is accepted exactly when every one of its leaves is a floating point array whose shape begins with the batch shape, and a new builder exactly when its
     threshold parameter lies strictly between zero and one and its dtype is floating; everything else raises. A refused definition leaves the builder unchanged and usable.""",
     ["inputs", "configurations"],
     "All definitions with generated leaf shapes, dtypes and containers, valid or not; all core parameters.",
     "Tests try one or two invalid examples; near-valid shapes (suffix matches, permuted, broadcastable) are not tried.",
     [BLD], [("leaf validation", BLD + ":_validate_definition_pytree"), ("shape parsing", BLD + ":define_accumulator_by_shape"), ("core validation", BLD + ":new_builder")],
     "property-based testing against an independent validity rule", "Accept/reject decided by an independent rule over generated near-valid definitions.")

prop("C13", "A masked view shows exactly the selected elements and zeros elsewhere",
     """A view masked by a boolean mask of the batch shape shows every tensor - probabilities, residuals, iterations, accumulators, defaults and pending updates - unchanged at the selected batch elements and zero at all
     others, even where the data hidden is not finite; halted-only and unhalted-only views select exactly the elements that have halted and have not, judged on the controller the view was made of.
     Masks of another dtype or shape are refused, and the structure of the view and the controller it came from are unaffected.""",
     ["inputs", "histories"],
     "All reachable controller states, contents with NaN and infinities, all masks and compositions of views.",
     "Viewer tests use fixed finite arrays and a single mask.",
     [VIEW], [("masking", VIEW + ":mask_data"), ("selection by halting", VIEW + ":halted_only, unhalted_only"), ("application to all tensors", VIEW + ":transform")],
     "property-based testing against a numpy oracle", "Every tensor of every generated view compared with a numpy mask.", S_STATE)

prop("C14", "A view transform is applied to every tensor once and to nothing else",
     """Transforming a view applies the given function exactly once to each tensor it shows - probabilities, residuals, iterations, every leaf of accumulators, defaults and pending
     updates, each in its own place - and keeps missing updates missing, the threshold, the depression constant and the container structure. Transforms compose in order.""",
     ["inputs", "histories", "programs"],
     "All reachable states (any subset of updates pending) and generated transform functions and compositions.",
     "Tests transform a viewer whose fields have equal content or no pending updates, which cannot tell fields apart.",
     [VIEW], [("transform", VIEW + ":transform"), ("container traversal", "jax.tree_util in " + VIEW)],
     "property-based testing with recording functions", "Recording and numeric transforms compared leaf by leaf.", S_STATE)

prop("C15", "An edit replaces exactly the named field and the process goes on from it",
     """A valid edit - of probabilities, residuals, iterations, epsilon, or one accumulator's value, default or pending update (possibly cleared) - changes exactly that field to exactly the given value, whatever the error mode and whether the editor came
     from a controller or a save; edits accumulate in order, and replacing fields of a saved state changes exactly those. The controller built afterwards continues by the ordinary rules from the edited state, with its depression constant kept.""",
     ["histories", "inputs"],
     "All sequences of valid edits at any reachable point, followed by further steps and resets.",
     "Editor tests set one field once and look only at that field.",
     [EDIT, STATES], [("setters", EDIT + ":set_*"), ("state replacement", STATES + ":replace"), ("building", EDIT + ":build, save")],
     "stateful model-based property testing of edit sequences", "After each edit every field is compared with a model; the built controller is stepped against the edited reference model.", S_STATE)

prop("C16", "The editor refuses exactly the invalid values, in every error mode",
     """In standard mode an edit raises exactly when the value is invalid for its field: wrong shape or dtype, probabilities, residuals or epsilon outside [0, 1], negative iterations, an unknown accumulator
     name, or a container structure or leaf shape or dtype other than the present one; valid values including the boundaries are accepted. A refused edit changes nothing; silenced editors accept; the value
     checks also work in compiled code, through the functionalised error.""",
     ["inputs", "configurations", "histories"],
     "All fields, all near-valid and boundary values, all error modes, eager and compiled.",
     "The setter tests try a few clearly invalid arrays eagerly.",
     [EDIT], [("validators", EDIT + ":_validate_*"), ("dispatch on the error mode", EDIT + ":_execute_validation"), ("setters", EDIT + ":set_*")],
     "property-based testing against an independent validity rule", "Accept/reject decided by an independent rule, eagerly and under checkify+jit.")

prop("C17", "Running a layer equals the plain loop, up to the iteration limit",
     """Executing an ACT layer makes its controller once from the initial state and the extra arguments and then performs its iterations in order until every batch element has halted or the iteration
     limit is reached - never one more or one fewer - returning the final controller and state exactly as a plain loop over the layer's own methods would. Without a limit given the default is ten. Extra arguments reach controller creation and contract
     checks do not influence results.""",
     ["histories", "configurations", "inputs", "programs"],
     "All halting-probability tables, limits (including 0 and none), depression constants, argument forms, eager, compiled and vectorised.",
     "Layer tests run one or two toy layers with one limit.",
     [ACT, CORE], [("termination test", ACT + ":_is_act_not_complete"), ("loop body and counter", ACT + ":_while_loop_adapter_factory, ACTMetaData.increase_counter"), ("execution", ACT + ":execute_act")],
     "differential property-based testing (execute_act vs plain loop)", "Differential against a Python loop over the layer's methods; compiled runs with a 2e-5 tolerance.", S_STATE)

prop("C18", "Breaches of the layer contract are always reported, conforming layers never",
     """With error checking on, a layer whose controller creation returns anything but a controller with accumulators, or whose iteration returns anything but a (controller, state) pair with a new controller whose updates have all been
     committed, raises at that call. Conforming layers are never disturbed: results pass through untouched. With checking off nothing is reported.""",
     ["programs", "inputs", "histories"],
     "All breaches at any iteration, any subset of uncommitted updates, conforming layers of any shape.",
     "Tests call individual validators; none drives a breach through the wrapper or the loop.",
     [CORE, ACT], [("wrapper", CORE + ":ContractValidationWrapper.make_controller, run_iteration"), ("validators", CORE + ":_validate_*"), ("switch", ACT + ":execute_act check_for_errors")],
     "property-based testing with generated contract breaches", "Generated breaches must raise at the breaching call; conforming layers must pass.")

prop("C19", "A Flax ACT layer computes what its parameters say, however Flax runs it",
     """A Flax ACT layer - submodules made in setup or inline, plain or tree-valued state, nested in other modules - creates the same parameters once at initialisation, and init, apply, init_with_output and their compiled or mutable forms
     give the result of unrolling the layer's iterations with those parameters in plain numpy, also within Flax's own scan, vmap, remat and jit. Random numbers drawn in an iteration (such as dropout) differ from one iteration to the next. Its epsilon, depression constant, iteration limit, error checking and extra arguments have their documented effect, and a layer that does not define its setup is refused.""",
     ["programs", "configurations", "inputs"],
     "All layer sizes, parameters, settings and ways of running them in Flax.",
     "The Flax integration test does not even import on this tree; nothing exercises apply with other parameters, nesting or limits.",
     [FLAX, ACT], [("parameter creation before the loop", FLAX + ":setup_lazy_parameters"), ("loop under Flax", FLAX + ":_execute_while_loop; " + ACT + ":execute_act"), ("setup requirement", FLAX + ":setup")],
     "differential property-based testing (Flax vs numpy unrolling)", "Differential against a numpy unrolling; near-threshold cases inconclusive.")

prop("C20", "The depression constant scales the clamped halting probabilities only",
     """A history run under depression constant d equals the same history run under constant one with every halting probability clamped to [0, 1] and multiplied by d, in controllers and layers, with d fixed or traced. Hence a larger constant
     never lowers an element's cumulative probability nor lengthens its run, and constant zero accumulates nothing, never halts, but still counts iterations. Nothing else depends on it, and it is kept by every operation.""",
     ["histories", "configurations", "inputs"],
     "All histories and pairs of constants, eager, traced and through layers.",
     "No test steps with a constant other than one.",
     [CTL, ACT, STATES], [("scaling after clamping", CTL + ":iterate_act, _process_probabilities"), ("kept on replacement", STATES + ":replace"), ("set by the builder", BLD + ":new_builder")],
     "metamorphic property-based testing (rescaled histories)", "Metamorphic relations between histories under different constants.", S_STATE)

prop("C21", "Gradients through a history are those of adaptive computation time",
     """Differentiating a function of the final accumulators, residuals and probabilities through a history of steps gives the exact derivatives of the ACT recurrence with respect to halting probabilities, updates, initial
     accumulator contents and depression constant, in reverse and in forward mode (the latter through layers too): finite, flowing through the remainder of the halting step, and zero for everything given to an element after it has halted. Viewing and compiling do not change them.""",
     ["histories", "inputs"],
     "All histories with probabilities away from the halting borderline; random linear losses.",
     "No test differentiates anything.",
     [CTL, VIEW], [("differentiable selects", CTL + ":_process_probabilities, _update_accumulator"), ("clipping", CTL + ":iterate_act"), ("masking", VIEW + ":mask_data")],
     "property-based testing against analytic gradients", "jax.grad compared with the analytic gradient of the recurrence, relative tolerance 1e-4.", S_STATE)

prop("C22", "Pytree broadcasting and binary operators obey the recursive definition",
     """Broadcasting one pytree into the structure of another repeats each leaf over the whole subtree that stands in its place and is refused exactly when container kinds, lengths or keys differ where both have containers. The binary pytree
     operator applies the operation in argument order to corresponding leaves, broadcasting the coarser tree and left-aligned leaf shapes, and raises a RuntimeError - never a silent partial result - when trees or leaves do not fit or the operation fails.""",
     ["inputs", "programs"],
     "All pairs of generated nested trees: equal, coarsened, corrupted in one place, unrelated; all operators and leaf shapes.",
     "Tests broadcast a few literal trees; the matching rules quantify over tree pairs.",
     [UTIL], [("leaf replication", UTIL + ":_replicate_leaves, _repeat_node, _count_linked_leaves"), ("descent validation", UTIL + ":_validate_children_descent"), ("broadcast", UTIL + ":broadcast_pytree_shape"), ("operators", UTIL + ":execute_binary_operator")],
     "property-based testing against a recursive reference definition", "A recursive definition over tree descriptions decides acceptance and every leaf.")

prop("C23", "Pytree comparison, merging and shape judgement agree with their definitions",
     """Two pytrees have equal structure exactly when their containers, keys and lengths agree, and are equal exactly when structure, leaf shapes and (close, or identical on request) contents agree - never raising on comparable inputs. Merging applies the function to corresponding leaves in order, keeps the primary structure, and refuses
     mismatched leaf counts; a tensor is set up for, or judged to, broadcast against another exactly when the aligned dimensions say so, with its values unchanged.""",
     ["inputs", "configurations"],
     "All pairs of generated trees and shapes, including one-place changes, NaN, scalars and key order.",
     "Tests compare a handful of literal trees.",
     [UTIL], [("structure equality", UTIL + ":are_pytree_structure_equal"), ("value equality", UTIL + ":are_pytrees_equal"), ("merging", UTIL + ":merge_pytrees"), ("shape judgement", UTIL + ":can_right_broadcast, setup_left_broadcast")],
     "property-based testing against reference definitions", "Independent definitions over tree descriptions and numpy broadcasting.")

prop("C24", "A checked compiled function raises exactly when one of its checks fails",
     """A function wrapped for checked compilation raises, at every call whose inputs fail one of its checks (wherever in scans, branches or controller steps), an error carrying the first failing check's message, and otherwise returns what the plain function returns - for positional and keyword arguments, whatever earlier calls
     did. It is compiled once per input shape.""",
     ["inputs", "histories", "programs"],
     "All call sequences mixing failing and passing inputs over several functions.",
     "No test calls the same wrapped function more than once or twice.",
     [UTIL], [("wrapping", UTIL + ":jit_and_checkify")],
     "property-based testing of call sequences", "Sequences of calls against the plain function and the first failing check.")

prop("C25", "Halting works in every floating dtype and for every epsilon",
     """For every core dtype (float16, bfloat16, float32, float64) and every epsilon, including ones too small to be represented next to one in that dtype, an element whose halting probabilities add up to one halts in the step its cumulative probability crosses the threshold within rounding, ends
     at probability one with its accumulated weight one, is then frozen and can be reset; a layer run over it terminates.""",
     ["configurations", "inputs", "histories"],
     "All core dtypes, epsilons from 1e-9 to 0.9 and halting-probability cycles; eager and compiled.",
     "All tests use float32 with the default or coarse thresholds.",
     [CTL, VIEW, UTIL], [("halting decision", UTIL + ":find_halted; " + CTL + ":halted_batches, _process_probabilities"), ("same decision in views", VIEW + ":halted_batches")],
     "property-based testing over dtypes and epsilons", "Exact rational crossing steps with per-dtype rounding slack.", S_STATE)

prop("C26", "Every tensor keeps its dtype, shape and structure through every operation",
     """Whatever mixture of floating dtypes the core tensors, accumulators and updates have, every step, reset, view, save, load, edit and round trip keeps dtype, shape and container structure of probabilities, residuals, iterations, accumulators and
     defaults as they were at creation, eagerly and compiled, with values as accurate as the coarsest dtype allows. The controller is thus always usable as a loop carry.""",
     ["configurations", "histories", "inputs"],
     "All combinations of core, accumulator and update dtypes over all histories.",
     "All tests use float32 throughout.",
     [CTL, BLD, VIEW], [("cast back to the accumulator dtype", CTL + ":_update_accumulator"), ("reset select", CTL + ":reset_batches"), ("mask", VIEW + ":mask_data")],
     "property-based testing, invariant over mixed-dtype histories", "Dtype/shape/structure invariant plus model values within the coarsest dtype's tolerance.", S_STATE)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    py = "/opt/venv/bin/python -B run.py "
    checks = [{"property": p["id"], "quick_cmd": py + p["id"], "thorough_cmd": py + p["id"] + " thorough",
               "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": py + "--selftest", "checks": checks, "not_applicable": []}, f, indent=1)
        f.write("\n")


main()
