"""Writes /verif/properties.jsonl. The single place the property texts live."""
import json
import os

CS = "src/ConfigSpace/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": [CS + f for f in files],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": hook,
            },
        }
    )


prop(
    "C01",
    "Every sampled configuration is valid",
    "Every configuration returned by sampling a space gives a legal value to exactly those hyperparameters that are active (a hyperparameter with a condition is active when its condition holds; a comparison with an inactive parent never holds) and matches no forbidden clause. "
    "The space itself also accepts each sample as valid and reports the same active hyperparameters. "
    "This holds for every sequence of values the random generator can produce.",
    ["inputs", "histories", "schedules"],
    "every space the API accepts (all hyperparameter types, nested AND/OR conditions over several levels, all forbidden clause kinds), every way it was built up, every random stream including extreme and repeated draws, every sample size",
    "Tests sample a few fixed spaces with fixed seeds; whether an inactive value leaks depends on which candidate draws meet which condition order, which is one point in an unbounded space of structures and streams.",
    ["configuration_space.py", "_condition_tree.py", "conditions.py", "forbidden.py", "hyperparameters/distributions.py", "hyperparameters/hp_components.py"],
    [
        ("rejection sampling with vectorised activation", CS + "configuration_space.py:sample_configuration"),
        ("condition order and grouping", CS + "_condition_tree.py:DAG.update"),
        ("vectorised condition evaluation", CS + "conditions.py:satisfied_by_vector_array"),
        ("vectorised forbidden evaluation", CS + "forbidden.py:is_forbidden_vector_array"),
    ],
    ["ConfigurationSpace.sample_configuration", "dict(configuration)", "Configuration.check_valid_configuration", "ConfigurationSpace.get_active_hyperparameters"],
)
prop(
    "C02",
    "Sampling returns exactly the requested number, in bounded work",
    "Asking a space that has valid configurations for n samples returns exactly n of them (a single configuration when no size is given, an empty list for zero), however many candidates forbidden clauses reject on the way. "
    "The call finishes in work proportional to n divided by the share of acceptable candidates, and resumes normal progress after any run of unlucky draws.",
    ["inputs", "fault_sequences", "histories"],
    "every satisfiable space with a non-negligible acceptance share, every n, every finite run of unlucky draws injected in the random stream",
    "Termination and exact counts depend on how rejections fall across internal batches; tests use spaces where the first batch suffices.",
    ["configuration_space.py"],
    [("batched rejection loop", CS + "configuration_space.py:sample_configuration")],
    ["ConfigurationSpace.sample_configuration"],
)
prop(
    "C03",
    "The same seed gives the same results, everywhere",
    "Two equal spaces given the same seed and asked for the same sequence of samples return identical configurations, in any process, whatever the hash randomisation, the state of global random generators, what other spaces do meanwhile, and whatever read-only queries happen in between. "
    "Setting the seed again restarts the sequence. "
    "Neighbour generation, random neighbours and single-hyperparameter draws are likewise fully determined by their arguments and seed.",
    ["histories", "schedules", "inputs"],
    "every space, every request sequence, every interleaving with queries and with other spaces, every interpreter hash seed",
    "Tests compare two runs inside one process with one hash seed and nothing interleaved.",
    ["configuration_space.py", "util.py", "hyperparameters/distributions.py", "_condition_tree.py"],
    [
        ("per-space random state", CS + "configuration_space.py:seed"),
        ("sorted hyperparameter order", CS + "_condition_tree.py:DAG.update"),
        ("explicit random state in every draw", CS + "hyperparameters/distributions.py:sample_vector"),
    ],
    ["ConfigurationSpace.seed", "sample_configuration", "get_one_exchange_neighbourhood", "get_random_neighbor", "Hyperparameter.sample_value"],
)
prop(
    "C04",
    "A space does not depend on the order it was built in",
    "Adding the same hyperparameters, conditions and forbidden clauses in any order, and split over any number of calls, gives equal spaces as long as every call is accepted. "
    "Equal spaces list their hyperparameters in the same order, have the same default configuration, the same samples for the same seed, the same neighbours and the same validation verdicts.",
    ["histories"],
    "every permutation and every batching of the pieces of every space in which each call is accepted",
    "Tests build each space one way; the caches are rebuilt incrementally so the result can depend on history.",
    ["configuration_space.py", "_condition_tree.py"],
    [("sorting by depth and name, forbiddens sorted by text", CS + "_condition_tree.py:DAG.update"), ("depth propagation", CS + "_condition_tree.py:HPNode.propogate_new_depth")],
    ["ConfigurationSpace.add", "ConfigurationSpace.__eq__", "list(space)", "get_default_configuration", "sample_configuration"],
)
prop(
    "C05",
    "A rejected or interrupted addition leaves the space unchanged",
    "When adding hyperparameters, conditions, forbidden clauses or a whole sub-space raises an error, or is interrupted part-way, the space is exactly what it was before the call: equal to it, with the same listing, default, samples, validation verdicts and serialised form. "
    "It then accepts any later addition that it would have accepted before.",
    ["histories", "fault_sequences", "crash_points"],
    "every sequence of accepted and rejected additions, every rejection reason, every position of the offending piece in a batch, and an interrupt at any call made inside the addition",
    "Tests assert that the exception is raised and never look at the space again; interrupts are not exercised at all.",
    ["configuration_space.py", "_condition_tree.py"],
    [("update transaction", CS + "_condition_tree.py:DAG.update"), ("default check after the update", CS + "configuration_space.py:add")],
    ["ConfigurationSpace.add", "ConfigurationSpace.add_configuration_space"],
    state=[("pending update", "flag and containers changed before validation finishes", CS + "_condition_tree.py:DAG")],
)
prop(
    "C06",
    "Neighbourhood generation yields only valid one-step neighbours",
    "Every configuration produced by the one-exchange neighbourhood of a valid configuration is valid, differs from it, and changes exactly one hyperparameter that was active; all others keep their value, except that hyperparameters the change deactivates disappear and those it activates take their default. "
    "The stream ends after at most the documented number of neighbours per hyperparameter, and the source configuration is never altered. "
    "This holds for every random outcome and however the stream is interleaved with other streams or abandoned.",
    ["inputs", "schedules", "histories"],
    "every valid configuration of every space, every random stream, any number of neighbour streams advanced in any interleaving and dropped at any point",
    "Tests check a handful of fixed spaces; forbidden and newly activated hyperparameters meet only in particular structures and draws.",
    ["util.py", "_condition_tree.py", "hyperparameters/distributions.py", "hyperparameters/hp_components.py"],
    [
        ("neighbour generator", CS + "util.py:get_one_exchange_neighbourhood"),
        ("activation repair after a change", CS + "util.py:change_hp_value"),
        ("per-hyperparameter neighbourhoods", CS + "hyperparameters/distributions.py:neighborhood"),
    ],
    ["ConfigSpace.util.get_one_exchange_neighbourhood"],
)
prop(
    "C07",
    "Assigning to a configuration is all-or-nothing and follows the conditions",
    "Assigning a legal value to an active hyperparameter of a valid configuration makes exactly that change, drops the hyperparameters it deactivates, gives defaults to those it activates, and leaves all other values as they were; the result is valid. "
    "An assignment that is illegal, targets an inactive or unknown hyperparameter, or would create a forbidden combination raises and changes nothing, and an interrupted assignment leaves either the old or the new configuration, never a mixture.",
    ["histories", "fault_sequences", "crash_points"],
    "every sequence of assignments and reads on every valid configuration of every space, with an interrupt at any call made inside an assignment",
    "Tests make single assignments on fixed spaces; chains of activation and deactivation across several levels need particular histories.",
    ["configuration.py", "util.py", "_condition_tree.py"],
    [("assignment", CS + "configuration.py:Configuration.__setitem__"), ("activation repair", CS + "util.py:change_hp_value"), ("lookup of affected conditions", CS + "_condition_tree.py:DAG.change_hp_lookup")],
    ["Configuration.__setitem__", "dict(configuration)", "Configuration.get_array"],
)
prop(
    "C08",
    "A configuration's values and vector always describe the same thing",
    "At every point of any history of reads, assignments, failed assignments and copies, each way of reading a configuration agrees: indexing, get, membership, iteration, conversion to a dict and the vector all describe the same active hyperparameters and values, and reading twice gives the same answer. "
    "Rebuilding a configuration from those values gives one that is equal and hashes the same; rebuilding it from that vector gives one that holds the same values, up to the last digits of floating-point numbers. Configurations that are equal hash the same.",
    ["histories", "inputs"],
    "every history of reads (in any order, partial or complete), successful and failed assignments, copies and rebuilds on configurations from every source (sampled, default, neighbour, explicit values, vector)",
    "Values are decoded lazily and cached; which entries are cached when an assignment happens depends on the history of reads.",
    ["configuration.py", "hyperparameters/hp_components.py", "hyperparameters/hyperparameter.py"],
    [("lazy value cache", CS + "configuration.py:Configuration.__getitem__"), ("cache invalidation", CS + "configuration.py:Configuration.__setitem__")],
    ["Configuration.__getitem__", "Configuration.get_array", "Configuration.__eq__", "Configuration.__hash__", "Configuration.items"],
    state=[("cached values", "decoded lazily from the vector, dropped on assignment", CS + "configuration.py:Configuration._values")],
)
prop(
    "C09",
    "Validation accepts exactly the valid configurations",
    "After any history of additions, accepted or rejected, building a configuration from values or checking one succeeds exactly when every active hyperparameter has a legal value, no inactive one has a value, and no forbidden clause matches, judged on the definition the space has at that moment. "
    "The reported set of active hyperparameters and the default configuration follow the same definition.",
    ["histories", "inputs"],
    "every space, every point of every build-up history (hyperparameters, conditions and forbidden clauses arriving in any accepted order, with rejected calls in between), every assignment of values, valid or broken in one place",
    "Tests check a few fixed spaces once; validation runs on optimised, merged clauses rebuilt after every addition.",
    ["util.py", "configuration.py", "configuration_space.py", "_condition_tree.py", "forbidden.py", "conditions.py"],
    [("vector check", CS + "util.py:check_configuration"), ("merged forbidden clauses", CS + "_condition_tree.py:DAG._optimized_forbiddens"), ("minimal condition set", CS + "_condition_tree.py:DAG._minimum_conditions")],
    ["Configuration(space, values=...)", "Configuration.check_valid_configuration", "ConfigurationSpace.get_active_hyperparameters", "get_default_configuration"],
)
prop(
    "C10",
    "Saving and loading a space never silently loses or alters it",
    "A space saved to a JSON file without an error loads back equal, with the same default and the same samples for the same seed. "
    "If reading or writing fails at any point the call raises, and whatever a crash or failed write left in the file, loading it either raises or returns a space equal to one that was saved there. "
    "Saving never changes the space, and a space that cannot be represented is refused without touching an existing file.",
    ["fault_sequences", "crash_points", "inputs"],
    "every space, every sequence of saves and loads over one or more paths, every placement of disk-full, I/O error, short write, crash and read error",
    "Tests write and read once on a healthy disk.",
    ["configuration_space.py", "read_and_write/dictionary.py", "read_and_write/json.py"],
    [("encode, then write", CS + "configuration_space.py:to_json"), ("read, then decode", CS + "configuration_space.py:from_json"), ("encoders and decoders", CS + "read_and_write/dictionary.py")],
    ["ConfigurationSpace.to_json", "ConfigurationSpace.from_json"],
)
prop(
    "C11",
    "A copied or pickled space or configuration carries on identically",
    "A deep copy or a pickled and restored space is equal to the original and, from then on, produces exactly the samples, neighbours, verdicts and accepted additions the original would have, continuing the random sequence where it stood. "
    "Original and copy never affect each other afterwards. The same holds for configurations.",
    ["crash_points", "histories"],
    "every operation history with a checkpoint and restart (or a copy) inserted at any point, and any later operations on either side",
    "Tests pickle a fresh object once; state held in caches and the random generator matters only mid-history.",
    ["configuration_space.py", "configuration.py", "_condition_tree.py", "hyperparameters/distributions.py", "hyperparameters/hp_components.py"],
    [("plain attribute state", CS + "configuration_space.py:ConfigurationSpace.__init__")],
    ["pickle", "copy.deepcopy", "copy.copy of a configuration"],
)
prop(
    "C12",
    "Work on separate spaces in different threads does not interfere",
    "When several threads each build, sample, modify, save or query their own space and configurations, every thread gets exactly the results it would have got running alone, under every interleaving.",
    ["schedules"],
    "every interleaving, at the granularity of source lines, of threads working on unrelated spaces",
    "Tests are single-threaded; process-wide state shared by unrelated spaces only matters in particular interleavings.",
    ["_condition_tree.py", "configuration_space.py", "hyperparameters/distributions.py", "util.py"],
    [("no mutable module or class state", CS + "_condition_tree.py:ConditionNode"), ("module-level cached arrays", CS + "hyperparameters/distributions.py")],
    ["all public operations"],
)
prop(
    "C13",
    "Concurrent read-only use of one space equals sequential use",
    "When several threads query one shared, finished space at the same time (validating, building configurations, reading defaults and densities, generating neighbours with their own seeds, comparing, serialising, copying), each gets exactly what it would get alone. "
    "Threads drawing samples from one shared space at the same time each receive the number they asked for, all valid.",
    ["schedules"],
    "every interleaving, at the granularity of source lines, of read-only operations on one space and its configurations",
    "Tests are single-threaded; lazily filled caches are only exposed by particular interleavings.",
    ["configuration_space.py", "configuration.py", "util.py", "hyperparameters/distributions.py", "hyperparameters/hyperparameter.py"],
    [("caches computed at update time", CS + "_condition_tree.py:DAG.update"), ("lazy caches", CS + "hyperparameters/distributions.py:max_density")],
    ["all read-only public operations"],
)
prop(
    "C14",
    "Nesting a space inside another composes both and leaves the source alone",
    "Adding one space to another under a prefix, with or without a parent value that switches it on, gives a space whose conditions, forbidden clauses, activity, samples and defaults are those of the two definitions combined under the new names. "
    "The source space, its hyperparameters, conditions and clauses are unchanged, can be nested again elsewhere, and later changes or failures on either side do not affect the other.",
    ["histories", "fault_sequences"],
    "every pair of spaces, every prefix and parent value, repeated and chained nesting, with rejected or interrupted nestings and operations on both sides in between",
    "Tests nest one or two fixed spaces and do not look at the source again.",
    ["configuration_space.py", "forbidden.py", "conditions.py"],
    [("copy and rename", CS + "configuration_space.py:add_configuration_space"), ("clause copies", CS + "forbidden.py:__copy__"), ("condition copies", CS + "conditions.py:__copy__")],
    ["ConfigurationSpace.add_configuration_space"],
)
prop(
    "C15",
    "Read-only operations change nothing",
    "No query, sample, density evaluation, neighbour generation, comparison, printing, export, hashing or conversion changes what a space, hyperparameter, condition, clause or configuration is: it stays equal to an untouched twin, and later results are the same as if the query had not happened. "
    "Inputs handed to the library, such as value dictionaries, arrays and serialised definitions, are left as they were, and value dictionaries, drawn values and serialised forms it returns can be changed by the caller without affecting the library's objects.",
    ["histories", "schedules"],
    "every sequence of read-only operations on every space, in any order, mixed with mutation of returned objects",
    "Tests rarely compare an object with its twin after using it, and never for sequences of queries.",
    ["hyperparameters/distributions.py", "configuration_space.py", "configuration.py", "read_and_write/dictionary.py", "util.py"],
    [("value equality", CS + "configuration_space.py:__eq__"), ("distribution equality", CS + "hyperparameters/distributions.py:__eq__"), ("decoders", CS + "read_and_write/dictionary.py")],
    ["ConfigurationSpace.__eq__", "Hyperparameter.__eq__", "Configuration.__eq__", "from_serialized_dict"],
)
prop(
    "C16",
    "An interrupted query can simply be retried",
    "If any read-only operation (sampling, neighbour generation, validation, density, serialisation, building a configuration) is interrupted or fails part-way because something it calls fails, the space and configurations involved are still equal to untouched twins. "
    "Repeating the operation afterwards with the same seed gives exactly the result it would have given without the interruption.",
    ["fault_sequences", "crash_points"],
    "every read-only operation on every space, with an interrupt or an allocation failure at any call made inside it, and any number of retries",
    "Tests never interrupt an operation.",
    ["configuration_space.py", "configuration.py", "util.py", "hyperparameters/distributions.py"],
    [("no partial state in queries", CS + "configuration_space.py:sample_configuration"), ("lazy caches", CS + "hyperparameters/distributions.py:max_density"), ("lazy values", CS + "configuration.py:__getitem__")],
    ["all read-only public operations"],
)
prop(
    "C17",
    "A random neighbour is valid, one step away, and always arrives",
    "Asking for a random neighbour of a valid configuration returns a valid configuration with the same active hyperparameters and exactly one value changed, or raises a ValueError when none can be found; it never runs on forever. "
    "The source configuration is unchanged.",
    ["inputs", "fault_sequences"],
    "every valid configuration of every space including those with no or few neighbours, every seed",
    "Termination depends on how rejected candidates and draws combine; tests use spaces with plenty of neighbours.",
    ["util.py"],
    [("rejection loop", CS + "util.py:get_random_neighbor")],
    ["ConfigSpace.util.get_random_neighbor"],
)
prop(
    "C18",
    "A hyperparameter's own draws and neighbours are always legal",
    "For every hyperparameter and every random outcome, sampled values and vectors are legal, bounds included, and come in the number asked for. "
    "Neighbours of a legal value are legal, at most as many as asked for, distinct, and different from the value itself for discrete hyperparameters; a choice of weight zero is never drawn. "
    "A value and its vector form always stand for each other, so a drawn vector is the vector of the value it decodes to.",
    ["inputs", "fault_sequences"],
    "every hyperparameter type, range, scale and weight; every random stream including extreme and repeated draws; every neighbour count and spread",
    "Tests use a few ranges and seeds; grid and rounding effects appear only at particular ranges and draws.",
    ["hyperparameters/distributions.py", "hyperparameters/hp_components.py", "hyperparameters/hyperparameter.py", "functional.py"],
    [("quantisation", CS + "functional.py:quantize"), ("neighbourhoods", CS + "hyperparameters/distributions.py:quantized_neighborhood"), ("ordinal and categorical neighbourhoods", CS + "hyperparameters/hp_components.py")],
    ["Hyperparameter.sample_value", "Hyperparameter.sample_vector", "Hyperparameter.neighbors_values", "Hyperparameter.neighbors_vectorized"],
)
prop(
    "C19",
    "Draws follow the declared distribution and reach every legal value",
    "Over many draws, each hyperparameter's values appear in the proportions its declaration states: uniform over the range or its logarithm, by weight for categories, following the declared normal or beta shape, with every legal value of positive probability reachable. "
    "The same holds for the active values of a hyperparameter in configurations sampled from a space without forbidden clauses.",
    ["inputs", "histories"],
    "every hyperparameter declaration, and every long random stream up to an error probability below 1e-9 per test",
    "Tests compare a few histograms for fixed declarations.",
    ["hyperparameters/distributions.py", "hyperparameters/hp_components.py", "configuration_space.py", "functional.py"],
    [("distributions", CS + "hyperparameters/distributions.py:sample_vector"), ("log and linear scaling", CS + "hyperparameters/hp_components.py:UnitScaler")],
    ["Hyperparameter.sample_value", "ConfigurationSpace.sample_configuration"],
)

# ------------------------------------------------ pure functions: not claimed
NA = [
    ("P01", "Densities are normalised and match the declared distribution",
     "Densities are non-negative, zero outside the legal range and sum or integrate to one, on the value and the vector scale.",
     ["hyperparameters/distributions.py"], [("densities", CS + "hyperparameters/distributions.py:pdf_vector")]),
    ("P02", "A grid contains every valid combination exactly once",
     "Generating a grid returns each valid combination of the grid points exactly once, with conditions and forbidden clauses respected.",
     ["util.py"], [("grid", CS + "util.py:generate_grid")]),
    ("P03", "The size estimate is an upper bound on the number of configurations",
     "The estimated size is the exact number of configurations without conditions and clauses, and an upper bound otherwise.",
     ["configuration_space.py"], [("estimate", CS + "configuration_space.py:estimate_size")]),
    ("P04", "Legacy pcs text written from a space reads back as the same space",
     "A space exported to either pcs dialect and read back is the same space wherever the dialect can express it.",
     ["read_and_write/pcs.py", "read_and_write/pcs_new.py"], [("pcs", CS + "read_and_write/pcs.py")]),
    ("P05", "Imputation and deactivation helpers follow the conditions",
     "Imputing fills exactly the inactive hyperparameters; deactivating removes exactly the values whose conditions do not hold.",
     ["util.py"], [("helpers", CS + "util.py:deactivate_inactive_hyperparameters")]),
    ("P06", "Saving to YAML behaves like saving to JSON",
     "A space saved to YAML loads back equal, and failures surface as errors.",
     ["configuration_space.py"], [("yaml", CS + "configuration_space.py:to_yaml")]),
]
for id, title, st, files, mech in NA:
    prop(id, title, st, ["inputs"], "every space and argument", "Inputs are unbounded; tests use fixed spaces.", files, mech, [])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
