import json
C="node_tree_core/src/"
def P(id,title,statement,over,qtext,why,files,mech,state,observe,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[C+f if not f.startswith("node_tree") else f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=x,meaning='internal state that carries the property',where=C+files[0] if not files[0].startswith('node_tree') else files[0]) for x in state],observe_at=observe,hook_needed=hook))
NB=C+"structs/node_base.rs"; TB=C+"structs/node_tree_base.rs"; NS=C+"structs/node_scene.rs"; TP=C+"structs/tree_pointer.rs"
L=[
P("P01","The node tree stays one consistent tree under every history",
 "After any sequence of adding nodes or scenes, removing, freeing and renaming (also from within ready, loaded and process), every node in the tree is reachable from the root exactly once, is listed by its parent exactly once in the order it was added, and reports the matching parent, depth (parent's depth plus one), owner and RID. A plain added node takes its parent's owner; the owning nodes of a scene own themselves and the nodes below them up to the next owning node. children(), num_children(), childless(), get_child(), top_down(), is_root(), is_owner(), in_tree() and the tree's get_node() all agree with that one tree.",
 ["histories"],"every history of structural operations, issued between frames or from hooks, over every scene shape",
 "the unit tests build a few fixed scenes; consistency has to hold for every interleaving of adds and removals, including those made while the tree is being walked",
 ["structs/node_base.rs","structs/node_tree_base.rs","structs/node_scene.rs"],
 [("add_child, add_child_from_ptr, remove_child, free, top_down",NB),("initialize, register_node, unregister_node",TB)],
 ["NodeBase.children/parent/owner/depth","NodeTreeBase.nodes"],["NodeBase getters","NodeTreeBase::get_node"]),
P("P02","Sibling names are unique; renames take the next free numeric suffix",
 "No two children of one node ever share a name, whatever is added or renamed with set_name, and a node whose name is free among its (other) siblings keeps that name unchanged. A taken name gets the closest free numeric suffix above the one it ends in; the suffixes are ASCII decimal digits, nothing else of the name changes, and a name without a suffix (one beyond 32 bits counts as part of the name) counts up from zero.",
 ["inputs","histories"],"every name, every set of sibling names and every history of additions and renames",
 "tests use three or four ASCII names; the rule has to hold for gaps, leading zeros, huge and non-ASCII digit suffixes and names that are themselves suffixed",
 ["utils/functions.rs","structs/node_base.rs"],
 [("ensure_unique_name",C+"utils/functions.rs"),("set_name, add_child_from_ptr",NB)],
 ["NodeBase.name"],["NodeBase::name","ensure_unique_name"]),
P("P03","Tree pointers only ever give the node they were made for, typed, or fail",
 "A Tp or TpDyn gives access to exactly the node it was created for for as long as that node is in the tree and never to another node, however many nodes are removed and added in between; a RID is never handed out twice. Once the node is gone is_null() holds, try_get, try_get_mut, to and cast give an Err, and get and dereferencing panic (after posting a Panic for the pointer's owner, if that is still in the tree) without undefined behaviour, even when the owner or the root is gone too. Typed access succeeds exactly when the node is of that type (otherwise WrongType), and is<T>() agrees. A failing result that a node or a pointer hands out panics, when it is taken all the same, for that node or for the pointer's owner.",
 ["histories","inputs"],"every history of additions and removals between the creation and the use of a pointer, for every node type",
 "use after removal depends on how RIDs are reused, which only shows in histories that remove and then add",
 ["structs/tree_pointer.rs","structs/rid.rs","structs/node_tree_base.rs","structs/node_base.rs"],
 [("Tp, TpDyn",TP),("RIDHolder::push",C+"structs/rid.rs"),("get_node, get_nodes, get_all_valid_nodes",TB),("get_child, get_node, owner, parent, this",NB)],
 ["NodeTreeBase.nodes"],["Tp/TpDyn methods","NodeTreeBase::get_node(s)"]),
P("P04","Node paths resolve like file paths and absolute paths lead back",
 "Resolving a NodePath from a node walks child names, '.' and '..' from that node (or from the root when the path is absolute, whose first segment must be the root's name), ignoring empty segments, and gives exactly the node such a walk reaches or nothing. get_absolute_path of every node is absolute and resolves to that node from any node. Writing a path to a string and parsing it gives an equal path.",
 ["inputs","histories"],"every path string, every tree and every starting node",
 "the tests look up a handful of literal paths in one scene",
 ["structs/node_path.rs","structs/node_base.rs","structs/node_tree_base.rs"],
 [("NodePath::from_str, to_string, get_from",C+"structs/node_path.rs"),("get_node_raw, get_absolute_path",NB)],
 ["NodePath.path/abs"],["NodeBase::get_node(_dyn)","NodeTreeBase::get_node_rid","NodePath::to_string"]),
P("P05","A singleton name refers to the living node that first registered it",
 "Registering a node under a name succeeds exactly if no living node holds that name; from then on the name resolves to that node from everywhere until the node leaves the tree (by itself or with an ancestor), after which the name, and every other name of that node, is free again and resolves to nothing. Registering an invalid RID gives None and changes nothing.",
 ["histories"],"every history of registrations and removals",
 "the test registers one node and looks it up once",
 ["structs/node_tree_base.rs","structs/node_base.rs"],
 [("register_as_singleton, unregister_node, get_node_identity",TB),("register_as_singleton",NB)],
 ["NodeTreeBase.singletons","NodeTreeBase.identity"],["get_node(\"name\")","get_node_rid","get_node_identity"]),
P("P06","Each added node is loaded (if from disk) and ready once, its scene in place",
 "When a node or scene is added, or a tree is created from one, every node of it has ready() called exactly once, only after every node of that scene is in the tree, and after the ready() of all nodes below it. Nodes of a scene which was loaded from text or disk, and only those, have loaded() called exactly once, right before their ready(); has_just_loaded() is true in that call, and of no node that is ready. Nodes that are removed by an earlier hook of the same addition are skipped, and no other operation calls either hook. add_child_from_ptr makes its one node ready likewise, unless it is told to ignore that.",
 ["histories","inputs"],"every scene shape and origin (built, cloned, loaded) and every action a hook can take",
 "order and multiplicity depend on scene shape and on what other hooks do",
 ["structs/node_tree_base.rs","structs/node_base.rs","structs/node_scene.rs","traits/node.rs"],
 [("initialize, ready_nodes",TB),("add_child",NB),("iterate, from_disk",NS)],
 ["NodeBase.loaded"],["Node::loaded","Node::ready"]),
P("P07","Each frame processes every eligible node once, parents first, by mode and pause",
 "A call to the tree's process() calls process() once on every node that is in the tree for the whole frame and whose process mode lets it run, and on no other of them: Always runs always, Pausable unless paused, Inverse only while paused, Inherit like its parent (Pausable at the root). Parents come before their children and siblings in order, no node runs twice or after it was removed, and all of a frame's nodes get the same time since the previous frame. pause() and unpause() have effect until termination, also while termination is queued.",
 ["histories","configurations"],"every tree, assignment of process modes, pause state and every mutation made by process() itself",
 "tests process trees that do not change, in one mode",
 ["structs/node_tree_base.rs","traits/node.rs"],
 [("process, process_tail, pause, unpause",TB)],
 ["NodeTreeBase.status","NodeTreeBase.last_frame"],["Node::process","NodeTreeBase::process"]),
P("P08","Termination passes through its states once; every node gets its last word",
 "Queued termination lets the current frame (or the next, if queued in between) finish and then gives one frame in which every node has terminal(TreeExit) called exactly once whatever its process mode, and process() no longer; after it the tree is Terminated. terminate(), posting a panic and freeing the root terminate at once without any TreeExit. process() returns the matching TreeStatus at each frame, and a terminated tree stays terminated: no hook is ever called by it again.",
 ["histories","schedules"],"every history of frames and terminating calls, made between frames or by hooks in the middle of one",
 "tests terminate in one way at one moment",
 ["structs/node_tree_base.rs","structs/node_base.rs"],
 [("process, queue_termination, terminate, post",TB),("free",NB)],
 ["NodeTreeBase.status"],["NodeTreeBase::process","Node::terminal"]),
P("P09","Removing a branch calls terminal() once per node, then takes all of it out",
 "free() and remove_child() call terminal() exactly once, with reason Freed or RemovedAsChild, on every node of the branch and on no other, while the whole branch can still be reached through the tree; afterwards each of its nodes is out of the tree and dropped exactly once, and no other node is touched. remove_child with a name no child has changes nothing and returns false. This also holds for removals made by ready(), loaded() and process(), of the node itself, its ancestors or any other node.",
 ["histories","schedules"],"every branch shape and every moment of removal",
 "double or missing terminal calls and leaks depend on branch shape and on who removes whom in the middle of a walk",
 ["structs/node_base.rs","structs/node_tree_base.rs"],
 [("free, remove_child",NB),("unregister_node, process_tail, ready_nodes",TB)],
 ["NodeBase.children","NodeTreeBase.nodes"],["Node::terminal","Drop of the node","NodeTreeBase::get_node"]),
P("P10","Saving a scene and loading it gives back the same scene",
 "A scene saved with save_to_str or save and loaded with load_from_str or load has the same shape, node types, names, owners (the structural hash too) and exported field values, with all other fields void or default. This holds for every scene, however it was built (nested, cloned, loaded or saved from a branch), and saving does not change the scene.",
 ["inputs"],"every scene of registered node types, every node name and every exported value",
 "tests save two fixed scenes; the format has to carry every shape, name and value",
 ["structs/node_scene.rs","services/node_registry.rs","traits/exportable.rs","traits/registered.rs","node_tree_derive/src/lib.rs"],
 [("save_to_str, load_from_str, save, load, update_internal",NS),("deserialize",C+"services/node_registry.rs"),("derive_registered","node_tree_derive/src/lib.rs")],
 ["NodeScene.children/is_owner/from_disk"],["NodeScene::load*","structural_hash","Instanceable::iterate"]),
P("P11","Every exportable value survives to_value and from_value",
 "For every exportable type and value x, from_value(x.to_value()) gives back x, also when the TOML value goes through its text form and when the value is nested in the exportable containers. from_value of a TOML value of the wrong kind, length or content gives None and never panics.",
 ["inputs"],"every exportable type of the crate (std and glam), every value, and arbitrary TOML values as input",
 "there are about a hundred implementations and unbounded value domains; tests touch a few values of a few types",
 ["traits/exportable.rs","traits/glam_exportables.rs","structs/node_field.rs"],
 [("Exportable impls",C+"traits/exportable.rs"),("glam Exportable impls",C+"traits/glam_exportables.rs")],
 [],["Exportable::to_value","Exportable::from_value"]),
P("P12","Loading any text either reproduces what it says or fails with an error",
 "load_from_str never panics or aborts on any text, and load never on any file. It gives an Err for text which is not TOML and for scenes with missing or malformed metadata, unknown node types, missing or ill-typed fields, malformed keys, unknown, missing or later declared parents or no node at all; otherwise the loaded scene has exactly the document's nodes, with its types, names, parents in order, owners and field values.",
 ["inputs"],"every text: arbitrary, or a valid scene file with arbitrary edits",
 "tests only load what the library itself saved",
 ["structs/node_scene.rs","services/node_registry.rs","node_tree_derive/src/lib.rs"],
 [("load_from_str, load",NS),("deserialize",C+"services/node_registry.rs")],
 [],["NodeScene::load_from_str","NodeScene::load"]),
P("P13","Emitting a signal calls exactly the handlers that are connected, once each",
 "emit calls every handler which is connected when it starts, and is not disconnected before its turn, exactly once with the emitted values; handlers that are connected with connect_once are called at most once ever. disconnect returns whether the connection existed and ends exactly that one; connection ids are never reused. Handlers may emit, connect and disconnect on the same signal, and may free the node that holds it; cloning a node gives it signals without connections.",
 ["histories"],"every history of connect, connect_once, disconnect and (nested) emit over any number of signals",
 "tests connect one or two handlers that do nothing to the signal",
 ["structs/signals.rs","node_tree_derive/src/lib.rs","structs/rid.rs"],
 [("Signal::connect, connect_once, emit, disconnect",C+"structs/signals.rs"),("connect!","node_tree_derive/src/lib.rs")],
 ["Signal.hooks"],["handlers called","Signal::disconnect"]),
P("P14","The log records exactly the messages its verbosity admits, attributed in order",
 "The log holds, in the order they were posted, exactly the messages of the levels that the verbosity admits (Panic always; Warn, Info and Debug each needing a more verbose setting), each as one entry with a UTC time, the level and the poster: its latest singleton name or else its path from the root in brackets; each is printed to standard output, too. A panic adds a crash report with the configured header and footer and terminates the tree; no other level does. A warning or panic marks the posting node's status until the next frame.",
 ["histories","configurations"],"every verbosity and every history of posts, renames and registrations",
 "tests print a few messages and compare nothing",
 ["structs/logger.rs","structs/node_tree_base.rs","structs/node_base.rs"],
 [("Logger::post, post_manual",C+"structs/logger.rs"),("post, process",TB),("post",NB)],
 ["Logger.log","NodeBase.status"],["NodeTreeBase::get_log","NodeBase::status"]),
P("P15","TreeOption and TreeResult behave like Option and Result",
 "Every method of TreeOption and TreeResult returns and mutates what the standard method of the same name does, calling the given closures exactly as often. The panicking ones panic exactly when the standard ones do, after posting a Panic with their message for the owner if it is still in the tree (which terminates the tree), and never otherwise.",
 ["inputs","programs"],"every value and every composition of methods",
 "the tests call two or three of about ninety methods",
 ["structs/tree_option.rs","structs/tree_result.rs"],
 [("TreeOption",C+"structs/tree_option.rs"),("TreeResult",C+"structs/tree_result.rs")],
 ["TreeOption.object","TreeResult.object"],["return values","NodeTreeBase::get_log"]),
P("P16","Node fields behave like the value they hold",
 "Reading, writing, comparing and every compound assignment operator on a Field, ExportableField, UniqueField or DefaultField, with a plain value or another field, does what the operator does on the plain values. take, write_valid and cloning leave a Field or UniqueField valid or void as documented (a cloned UniqueField is void, a cloned Field equal), and only using a void one panics.",
 ["inputs","programs"],"every operator, field kind, value and sequence of operations",
 "there are eighty operator implementations, of which the tests use two",
 ["structs/node_field.rs","traits/element.rs"],
 [("Field, ExportableField, UniqueField, DefaultField",C+"structs/node_field.rs"),("Element, AsElement",C+"traits/element.rs")],
 ["field contents"],["Deref","take","is_void"]),
P("P17","RIDHolder is a map that never hands out an id twice",
 "After any history of push, take, retrieve and modify the holder contains exactly the pushed and not yet taken items under their ids, and its iterators, len and is_empty agree. push never returns an id that was in use before, including those of from_vec, which are the indices.",
 ["histories"],"every history of operations on a holder built in any way",
 "id reuse only shows after particular sequences of pushes and takes",
 ["structs/rid.rs"],[("RIDHolder",C+"structs/rid.rs")],["RIDHolder.data","RIDHolder.highest"],["push, take, retrieve, modify, iter*"]),
P("P18","Scenes are values: copies are independent and hashes compare structure",
 "Cloning a scene and save_as_branch give scenes with the same shape, types, names, owners (except that a branch's root owns itself), and exported and plain fields, made of new node instances: adding, changing or freeing the nodes of one never affects another or the original branch. The structural hash is the same for two scenes exactly if their shape, node types and owners are the same, whatever the names and fields.",
 ["inputs","histories"],"every scene, every sequence of append, clone, branch and instancing",
 "aliasing only shows when copies are used together; hashes need many pairs of near-equal scenes",
 ["structs/node_scene.rs","structs/node_base.rs"],
 [("Clone, append, append_as_owner, structural_hash",NS),("save_as_branch",NB)],
 ["NodeScene.this/children/is_owner"],["structural_hash","iterate","tree contents after add_child"]),
P("P19","class! generates the node type its declaration describes",
 "For every valid class! declaration the generated type has a new() with the parameters of _init (or none), initialises each field from its initialiser, _init or default by its kind, calls the declared hooks and functions, exposes its signals, constants and traits, clones field by field by kind and is registered so that saving and loading carries exactly the exported fields.",
 ["programs"],"every combination of field kinds, types, initialisers, visibility, signals, constants, hooks, functions, attributes and traits",
 "tests declare a few classes by hand",
 ["node_tree_derive/src/lib.rs","node_tree_derive/src/parser.rs"],
 [("class, derive_registered, abstract","node_tree_derive/src/lib.rs"),("Parse for Class","node_tree_derive/src/parser.rs")],
 [],["the compiled program's behaviour"]),
P("P20","scene! builds the scene that is written",
 "For every valid scene! expression the resulting NodeScene has exactly the written nodes in the written nesting and order, of the written types, constructed with the given arguments, named as written (or after their type), with the given settings applied to their fields and $linked scenes spliced in at their place.",
 ["programs"],"every nesting of nodes, arguments, names, settings, children and links",
 "tests write three scenes by hand",
 ["node_tree_derive/src/lib.rs","node_tree_derive/src/parser.rs","node_tree_derive/src/generator.rs"],
 [("scene","node_tree_derive/src/lib.rs"),("generate_node","node_tree_derive/src/generator.rs"),("Parse for SceneNode","node_tree_derive/src/parser.rs")],
 [],["NodeScene::iterate"]),
P("P21","No history of the safe interface touches freed or foreign memory",
 "No sequence of operations on trees, nodes, scenes, pointers, signals and loading, including operations made by hooks and handlers on any node and looks at the tree by destructors, reads or writes memory that was freed or never belonged to the value, frees anything twice or crosses an unchecked precondition.",
 ["histories","schedules"],"every history of the other properties, run under AddressSanitizer and with checked preconditions",
 "the library manages nodes through raw pointers; a use after free often behaves well by chance in a plain test",
 ["structs/node_base.rs","structs/node_tree_base.rs","structs/tree_pointer.rs","structs/signals.rs","structs/node_scene.rs"],
 [("raw node pointers",TB),("free, remove_child",NB),("hooks",C+"structs/signals.rs")],
 ["NodeTreeBase.nodes","Signal.hooks"],["AddressSanitizer reports","aborts"]),
P("P22","A TpDyn casts to a trait exactly if the node's class extends it",
 "is_of, cast and cast_mut on a TpDyn succeed exactly for the traits that the node's class declares with extends (and never for another class' traits), and the resulting trait object acts on that very node. On a removed node is_of is false and the casts give AttemptedDynCastOnNull; on a node without the trait DynCastFailed. Such a failure is reported for the pointer's owner.",
 ["histories","inputs"],"every class, trait, node and history",
 "tests cast one class to one trait",
 ["structs/tree_pointer.rs","node_tree_derive/src/lib.rs"],
 [("cast, cast_mut, is_of",TP),("extends","node_tree_derive/src/lib.rs")],
 [],["TpDyn::cast, cast_mut, is_of"]),
P("P23","The drawn tree shows exactly the layers around its origin",
 "draw_tree starts at the ancestor view_up layers above the origin (or the root) and draws every node from there down to view_down layers (plus the one that makes up for the elided layer) below the origin, each once, in order, under its parent and with its name; nodes one layer further down appear as '...' and deeper ones not at all. Nodes that warned or panicked in this frame are coloured and listed in the report's sections with their message.",
 ["inputs","histories"],"every tree, origin and pair of limits",
 "no test looks at the drawing",
 ["utils/functions.rs","structs/logger.rs"],
 [("draw_tree",C+"utils/functions.rs")],
 ["NodeBase.status"],["the returned text","the log after a panic"]),
P("P24","connect! wires a signal to a method of a node, and gives the connection's id",
 "After connect! { signal -> target.method } every emission of that signal of that node calls exactly that method of the target node once with the emitted values, until the returned id is disconnected; with ~> it is called by the next emission only. This holds for listeners taking &self or &mut self, for the emitter itself, children and any other node, for every number of values, and for several connections of one signal or target. Once the target is gone, the call panics and the tree terminates.",
 ["inputs","histories"],"every signal type, listener, target, kind of connection and order of emissions, disconnections and removals",
 "tests connect one signal of one value to two listeners",
 ["node_tree_derive/src/lib.rs","node_tree_derive/src/parser.rs","structs/signals.rs"],
 [("connect!","node_tree_derive/src/lib.rs"),("Connection","node_tree_derive/src/parser.rs"),("Signal",C+"structs/signals.rs")],
 ["Signal.hooks"],["the listeners' calls","disconnect"]),
P("P25","The logging and path macros format like format! does",
 "debug!, info!, warn! and error! post one message of their level for the given node, and nodepath! makes the path, whose text is what format! gives for the same format string and arguments (positional, named, inline, with width, precision and escapes, each evaluated once, with or without a trailing comma).",
 ["inputs"],"every format string and list of arguments that format! admits",
 "tests use inline arguments or none",
 ["structs/logger.rs","structs/node_path.rs"],
 [("debug!, info!, warn!, error!",C+"structs/logger.rs"),("nodepath!",C+"structs/node_path.rs")],
 [],["the log","the NodePath"]),
P("P26","Every node and signal handler is dropped once, with what holds it",
 "A node lives as long as the tree or scene that holds it: it is dropped exactly once, when it is removed or freed (with its whole branch), when its tree is dropped, or when the scene that holds it is dropped without being added; the temporary copies that saving, cloning, branching and failing loads make are dropped too. A signal drops a handler when it is disconnected (after it returned, if it is running), after the only call of a connect_once, and with the signal itself. Nothing is leaked, nothing is dropped earlier.",
 ["histories","inputs"],"every history of trees, scenes, signals, saved texts whole or damaged, and every order of dropping them",
 "a leak shows in no result; it takes counting every instance over a history",
 ["structs/node_scene.rs","structs/node_tree_base.rs","structs/node_base.rs","structs/signals.rs"],
 [("unregister_node, Drop",TB),("free, remove_child",NB),("Drop, iterate, clone, save_to_str, load_from_str",NS),("disconnect, emit",C+"structs/signals.rs")],
 ["NodeScene.this","NodeTreeBase.nodes","Signal.hooks"],["the destructors of nodes and of what handlers capture"]),
P("P27","A node outside of a tree refuses what needs a tree, and stays as it was",
 "A node that is in no tree (new, cloned, or in a scene) says so: in_tree, is_root and is_owner are false, is_stray is true, tree is None and depth 0. Everything that needs a tree (adding and removing children, listing them, looking up nodes, parent and owner, its path, pointers to itself, registering a singleton, posting to the log, free, saving it as a branch) panics on it instead of giving an answer, and changes neither the node nor the scene it is in; it can then still be renamed, added to a tree and used there.",
 ["inputs","histories"],"every node class, origin of the node and sequence of operations",
 "the tests only use nodes in trees",
 ["structs/node_base.rs"],
 [("NodeBase: tree, in_tree, is_stray and the operations that unwrap the tree",NB)],
 ["NodeBase.tree"],["panics","NodeBase getters"]),
P("P28","Trees are independent, and the same operations always give the same results",
 "What a tree does depends on nothing but what is done to it: the same operations in the same order on a tree made of the same scene give the same RIDs, names, hook calls in the same order, results, statuses, singletons, drawings and log entries, whether the tree is alone or other trees are created, processed, paused, terminated and dropped in between, or by one of its hooks. A frame's delta is the time since the last frame of the same tree. Two tree pointers are equal exactly if their tree, owner and node are the same.",
 ["histories","schedules"],"any number of trees, every program of operations for each and every interleaving of them, also inside hooks",
 "every test has one tree and runs its operations once",
 ["structs/node_tree_base.rs","structs/node_base.rs","structs/logger.rs","structs/rid.rs","structs/tree_pointer.rs","utils/functions.rs"],
 [("NodeTreeBase: process, register_node, register_as_singleton, pause, terminate, Drop",TB),("add_child, free, remove_child",NB),("post",C+"structs/logger.rs"),("draw_tree",C+"utils/functions.rs")],
 ["NodeTreeBase"],["hook calls","NodeTreeBase getters","the log","equality of TpDyn"]),
]
for p in L:
    print(p["id"],len(p["title"])) if len(p["title"])>80 else 0
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in L))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
print(sch.get("type"))

for p in L: jsonschema.validate(p,sch); assert len(p["title"])<=80
print(len(L))
