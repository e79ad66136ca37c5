"""Sizes, rules and assumptions of the checks."""

COMMON = ["Rust's standard library, toml_edit, glam, portable_intertrait and the compiler are trusted.",
          "The harness' own reference models are trusted."]

HISTORY = ("model-based stateful property testing: random histories of tree operations, made from outside and from "
           "inside the hooks, run on a real tree and on a reference model which are compared after every operation")
HIST_RULE = ("A case is a random tree (up to {size} nodes) and a random history of operations on it, each mirrored on the "
             "model; hooks act too. Non-trivial: {rule}.")
HIST_ASSUME = COMMON + [
    "Hooks do not add to, or free an ancestor of, a node that is being removed; names hold no '/'.",
    "A case that contradicts the model only in what another property states is dropped as diverged and counted under discard_reasons.",
]


def hist(focus, size, rule, quick=500000, thorough=20000000, **more):
    return dict(technique=HISTORY + " (" + focus + ")", quick=quick, thorough=thorough,
                rule=HIST_RULE.format(size=size, rule=rule), assumptions=HIST_ASSUME, **more)


CHECKS = {
    "P01": hist("links, owners, depths and all accessors", 8, "a node was added or removed"),
    "P02": hist("names with colliding, huge, padded and non-ASCII suffixes", 6, "something was added or took a taken name"),
    "P03": hist("pointers of every kind are kept and compared after every operation", 8, "a node was removed"),
    "P04": hist("paths of child names, '.', '..', empty segments, relative and absolute, against a reference walk", 10,
                "a path with several segments leads somewhere"),
    "P05": hist("singleton registrations", 5, "a singleton is registered"),
    "P06": hist("the hook calls of each addition against the scene's order", 7, "something was added"),
    "P07": hist("which nodes each frame processes, in which order", 9, "frames ran with more than three hook calls"),
    "P08": hist("status and hook calls through termination", 6, "frames ran with more than three hook calls"),
    "P09": hist("terminal() calls and drops of each removal", 10, "a node was removed"),
    "P14": hist("the log is parsed and compared with what was posted", 6, "a message was posted"),
    "P18": hist("clones and branches of scenes, changed and used repeatedly", 8, "something was added or removed"),
    "P21": hist("under AddressSanitizer and with the compiler's checks of unsafe preconditions: all operations, hooks and "
                "pointers to removed nodes", 8, "something was added or removed", quick=120000, thorough=5000000, flavour="asan"),
    "P22": hist("casts of dynamic pointers to every trait, also of removed nodes", 8, "a node was removed"),
    "P23": hist("drawings and crash reports against a reference drawing", 12, "a drawing was made"),
    "P17": dict(
        technique="model-based property testing: random operation sequences on RIDHolder against a BTreeMap",
        quick=1500000, thorough=20000000,
        rule="A case is a random sequence of up to 40 operations on one RIDHolder, mirrored on a BTreeMap. "
             "Non-trivial: an item is pushed after another one was taken.",
        assumptions=COMMON),
    "P10": dict(
        technique="property-based testing: round trip of generated scenes through save and load (text and files), compared node by node",
        quick=300000, thorough=6000000,
        rule="A case is a scene of up to 8 nodes of 8 classes with about 30 exported field types and arbitrary names, built by appending, "
             "cloning, reloading and branching, which is saved and loaded twice. Non-trivial: the scene has several nodes.",
        assumptions=COMMON + ["Node names of scenes that go through a tree hold no '/'."]),
    "P11": dict(
        technique="property-based testing: round trip of generated values of 150 exportable types through TOML values and text, and "
                  "structurally mutated TOML values against an independent oracle of what each type admits",
        quick=1500000, thorough=30000000,
        rule="A case is a type, a value of it and one to three TOML values derived from it by edits. Non-trivial: a TOML value that is "
             "none of the type was read.",
        assumptions=COMMON + ["Whether an integer that does not fit its type is refused or wraps is left open.", "Paths are Unicode."]),
    "P12": dict(
        technique="differential testing of load_from_str and load against a reference loader, on saved scenes with structured and textual "
                  "mutations, token soup and malformed files (mutation-based fuzzing)",
        quick=250000, thorough=6000000,
        rule="A case is a document: a saved scene with up to three edits of its metadata, fields, keys, order or notation and maybe of its "
             "text, random tokens, or deep nesting. Non-trivial: the document stems from a scene.",
        assumptions=COMMON + ["toml_edit decides what is TOML.", "Documents with duplicate ids or a root id other than 0 must not crash, but "
                              "nothing is said about their scene."]),
    "P13": dict(
        technique="model-based stateful property testing: random operations on signals, also made by their handlers, against a reference model",
        quick=800000, thorough=20000000,
        rule="A case is a random sequence of connect, connect_once, disconnect, emit, clone and free, made from outside and by handlers. "
             "Non-trivial: a handler acts on the signals or their nodes.",
        assumptions=COMMON + ["Whether a one-time connection's own running handler can still disconnect it is left open."]),
    "P15": dict(
        technique="differential testing: random sequences of calls on TreeOption and TreeResult and the standard types in lockstep",
        quick=1200000, thorough=30000000,
        rule="A case is a random sequence of method calls on both, with closures that count their calls, some with an owner that was freed. "
             "Non-trivial: calls were made and compared, up to the end or up to one that panicked in both.",
        assumptions=COMMON),
    "P16": dict(
        technique="differential testing: random sequences of operations on the field types and plain values in lockstep",
        quick=1200000, thorough=30000000,
        rule="A case is a random sequence of operations on one field of each kind and the value it holds. Non-trivial: an operator was applied to a field.",
        assumptions=COMMON),
    "P26": dict(
        technique="stateful property testing with instance counting: histories of trees, signal operations, and scenes saved to, loaded "
                  "from and copied via whole and damaged texts, where every node and handler made must be dropped once and on time",
        quick=300000, thorough=6000000,
        rule="A case is a history of tree operations, of signal operations, or of scenes, texts and copies that are used or thrown away. "
             "Non-trivial: something was added, removed or disconnected, a text was refused, or a scene has several nodes.",
        assumptions=HIST_ASSUME + ["When a removed node is dropped within remove_child or free is left open; afterwards it must have been."]),
    "P27": dict(
        technique="property-based testing: random operations on nodes outside of a tree (fresh, copied out of a tree, in built, cloned, "
                  "loaded or branched scenes), of which each must be refused by a panic and leave the node as it was",
        quick=300000, thorough=6000000,
        rule="A case is a node outside of a tree and up to eight operations on it, after which it may be put in a tree. "
             "Non-trivial: operations were made.",
        assumptions=COMMON + ["Whether a refused warning or panic leaves its mark in the node's status is left open."]),
    "P28": dict(
        technique="metamorphic property testing: programs of tree operations (from outside and from hooks) run on a tree alone, and then "
                  "interleaved with those of other trees, also from inside each other's hooks; what each tree shows must be the same",
        quick=150000, thorough=6000000,
        rule="A case is two or three programs of up to 12 operations, with what the trees' hooks do, and an interleaving of them. Non-trivial: the trees' "
             "turns alternate more than twice or one had its turn inside another's hook, and more than 12 observations were made.",
        assumptions=COMMON + ["A signal has one handler here, as the order of handlers is open."]),
    "P19": dict(
        technique="generative program testing: random class! declarations, compiled and run against an oracle made from the same declaration",
        codegen=True, quick=2400, thorough=40000, per_round=2400, per_bin=300,
        rule="A case is a random class! declaration with a program that tests the generated type. Non-trivial: it has at least three items.",
        assumptions=COMMON),
    "P20": dict(
        technique="generative program testing: random scene! expressions, compiled, walked and compared with the written tree",
        codegen=True, quick=6000, thorough=120000, per_round=6000, per_bin=750,
        rule="A case is a program with up to four scene! expressions over random classes, arguments, names, settings, children and links. "
             "Non-trivial: at least two nodes or links are written.",
        assumptions=COMMON),
    "P24": dict(
        technique="generative program testing: random connect! statements over generated classes and a random script of emissions, "
                  "disconnections and removals, whose calls a reference model predicts",
        codegen=True, quick=1600, thorough=60000, per_round=1600, per_bin=200,
        rule="A case is a program with an emitter of up to three signals, listeners of up to three classes and a script of up to 14 operations. "
             "Non-trivial: an emission calls a listener.",
        assumptions=COMMON),
    "P25": dict(
        technique="generative program testing: random calls of the logging and path macros against format! of the same tokens",
        codegen=True, quick=2400, thorough=60000, per_round=2400, per_bin=300,
        rule="A case is a program of up to eight calls with random format strings and arguments. Non-trivial: a placeholder is formatted.",
        assumptions=COMMON),
}
