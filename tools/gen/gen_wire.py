"""P24: random `connect!` statements over generated classes, with a script of operations whose calls are known."""
import copy, random
from gen_class import TYPES, pick_type

SIGNALS = "on_event event s a tick r#type changed signal größe on_2 self_ args tp_".split()
METHODS = "listener on_it handle r#do args m tp_ call emit_it größe connect_ f on_once once_ connect_once".split()
VARS = "t child this node tp_ args target r#box x self_ rid".split()
NAMES = ["L", "Kid", "k 2", "ü", "a.b", "Node9", "1"]
COPY = [i for i, t in enumerate(TYPES) if t[0][0] in ("u8", "u16", "u32", "i8", "i16", "i32", "i64", "u64", "f32", "f64", "bool", "char", "()")]


def payload(s):
    a = [TYPES[x["ty"]][0][x["v"]] for x in s["args"]]
    return a[0] if len(a) == 1 else "(" + ", ".join(a) + ")"


def values(s, which):
    a = [TYPES[x["ty"]][1][which % len(TYPES[x["ty"]][1])] for x in s["args"]]
    return a[0] if len(a) == 1 else "(" + ", ".join(a) + ")"


def generate(r, big=False):
    signals = []
    names = SIGNALS[:]
    r.shuffle(names)
    for i in range(r.choice([1, 1, 2, 3])):
        n = r.choice([0, 1, 1, 1, 2, 3])
        args = []
        for j in range(n):
            ty, v = (r.choice(COPY), 0) if n == 1 and r.random() < 0.4 else pick_type(r)
            args.append(dict(ty=ty, v=v))
        s = dict(name=names.pop(), args=args, field=None)
        if n == 1 and args[0]["ty"] in COPY and r.random() < 0.6:
            s["field"] = r.choice(["let", "export let", "unique let", "default let", "export default let"])
        signals.append(s)
    classes = []
    for i in range(r.choice([1, 2, 2, 3])):
        names = METHODS[:]
        r.shuffle(names)
        ms = []
        for _ in range(r.choice([1, 2, 3])):
            ms.append(dict(name=names.pop(), sig=r.randrange(len(signals)), kind=r.choice(["ref", "ref", "mut", "mut", "gen", "self", "pat", "ret", "static"])))
        classes.append(ms)
    nodes = []
    for i in range(r.choice([1, 2, 3, 4])):
        nodes.append(dict(cls=r.randrange(len(classes)), name=f"{r.choice(NAMES)}_{'abcdef'[i]}", parent=r.choice([-1, -1] + list(range(i)))))
    # The class 0 is the emitter's as well in some cases.
    own = [dict(name=f"own{j}", sig=r.randrange(len(signals)), kind=r.choice(["ref", "mut", "self"])) for j in range(r.choice([0, 0, 1, 2]))]
    ops, conns, dead = [], 0, set()
    start = r.choice([0, 1, 3, 5])
    count = r.randrange(3, 24 if big else 14)

    def below(i):
        return {i} | {k for j, n in enumerate(nodes) if n["parent"] == i for k in below(j)}

    for k in range(count):
        w = r.random()
        if w < 0.45 or k == 0:
            on_own = own and r.random() < 0.25
            live = [i for i in range(len(nodes)) if i not in dead]
            if on_own:
                t, m = -1, r.randrange(len(own))
            elif live:
                t = r.choice(live)
                m = r.randrange(len(classes[nodes[t]["cls"]]))
            else:
                continue
            ops.append(dict(k="connect", to=t, m=m, once=r.random() < 0.4, form=r.randrange(4), delim=r.choice(["{}", "{}", "()", "[]"]), var=r.choice(VARS),
                            way=r.choice(["path", "index", "dyn"]), id=conns))
            conns += 1
        elif w < 0.8:
            ops.append(dict(k="emit", sig=r.randrange(len(signals)), val=r.randrange(4), form=r.randrange(3)))
        elif w < 0.92 and conns:
            ops.append(dict(k="disconnect", id=r.randrange(conns)))
        elif k >= start:
            live = [i for i in range(len(nodes)) if i not in dead]
            if live and r.random() < 0.6:
                t = r.choice(live)
                dead |= below(t)
                ops.append(dict(k="free", to=t))
    return dict(signals=signals, classes=classes, own=own, nodes=nodes, ops=ops, start=start, tree=r.random() < 0.4, verb=r.randrange(3))


def methods(c, to):
    return c["own"] if to < 0 else c["classes"][c["nodes"][to]["cls"]]


def name(c, to):
    return "E" if to < 0 else c["nodes"][to]["name"]


def path(c, to):
    n = c["nodes"][to]
    return (path(c, n["parent"]) + "/" if n["parent"] >= 0 else "") + n["name"]


def below(c, i):
    return {i} | {k for j, n in enumerate(c["nodes"]) if n["parent"] == i for k in below(c, j)}


def script(c):
    """What each operation has to log, as Rust expressions; None after the last one."""
    conns = {i: [] for i in range(len(c["signals"]))}
    dead, out, index, counts = set(), [], {}, {}
    for op in c["ops"]:
        logs, end = [], False
        if op["k"] == "connect":
            m = methods(c, op["to"])[op["m"]]
            conns[m["sig"]].append(op)
            index[op["id"]] = m["sig"]
        elif op["k"] == "emit":
            s = c["signals"][op["sig"]]
            v = f"{{ let v: {payload(s)} = {values(s, op['val'])}; format!(\"{{v:?}}\") }}"
            for x in list(conns[op["sig"]]):
                if x["once"]:
                    conns[op["sig"]].remove(x)
                if x["to"] in dead:
                    # The order of the calls is open, so any of the others may come first.
                    end = True
                    continue
                m = methods(c, x["to"])[x["m"]]
                logs.append(f'format!("{{}}.{m["name"]} {{}}", "{name(c, x["to"])}", {v})')
                if m["kind"] == "mut":
                    counts[x["to"]] = counts.get(x["to"], 0) + 1
        elif op["k"] == "disconnect":
            s = index.get(op["id"])
            if s is None:
                out.append(None)
                continue
            had = [x for x in conns[s] if x["id"] == op["id"]]
            conns[s] = [x for x in conns[s] if x["id"] != op["id"]]
            logs.append(f'"disconnected {str(bool(had)).lower()}".to_string()')
        elif op["k"] == "free":
            dead |= below(c, op["to"])
        out.append((logs, end))
        if end:
            break
    return out, index, dead, counts


def prefix(c, steps):
    """The operations that ready() makes: none that removes anything."""
    free = [i for i, o in enumerate(c["ops"]) if o["k"] == "free"]
    return [i for i in range(min([c["start"], len(steps)] + free)) if steps[i]]


def method_source(c, m):
    t = payload(c["signals"][m["sig"]])
    n = m["name"]
    log = lambda v: f'rt::log(format!("{{}}.{n} {{:?}}", self.name(), {v}))'
    return {
        "ref": f"fn {n}(&self, v: &{t}) {{ {log('v')} }}",
        "mut": f"fn {n}(&mut self, v: &{t}) {{ *self.count += 1; {log('v')}; }}",
        "gen": f"pub fn {n}<A: std::fmt::Debug>(&self, v: &A) {{ {log('v')} }}",
        "self": f"pub fn {n}(self: &Self, v: &{t}) -> () {{ {log('v')} }}",
        "pat": f"fn {n}(&self, v @ _: &{t}) {{ let w: &{t} = v; {log('w')} }}",
        "ret": f"fn {n}<'a>(&'a self, v: &{t}) {{ if true {{ return {log('v')}; }} panic!() }}",
        "static": f"fn {n}(&self, v: &{t}) where Self: Sized + 'static {{ {log('v')} }}",
    }[m["kind"]]


def get(c, op, kind):
    """The expression of a pointer to an operation's target."""
    if op["to"] < 0:
        return "self.this()"
    n = c["nodes"][op["to"]]
    if n["parent"] < 0 and op.get("way") == "index":
        return f'{{ let i = self.children().iter().position(|k| k.name() == "{n["name"]}").unwrap(); self.get_child(i).unwrap() }}'
    if op.get("way") == "dyn":
        return f'self.get_node_dyn(nodepath!("{path(c, op["to"])}")).unwrap().to::<{kind}>().unwrap()'
    return f'self.get_node(nodepath!("{path(c, op["to"])}")).unwrap()'


def op_source(c, i, op, index):
    if op["k"] == "connect":
        m = methods(c, op["to"])[op["m"]]
        kind = "E" if op["to"] < 0 else f"L{c['nodes'][op['to']]['cls']}"
        l, r = op["delim"]
        sig, var = c["signals"][m["sig"]]["name"], op["var"]
        macro = f"connect! {l} {sig} {'~>' if op['once'] else '->'} {var}.{m['name']} {r}"
        if m["kind"] == "gen":
            m = m
        bind = f"let {var}: Tp<{kind}> = {get(c, op, kind)};"
        body = [f"{bind} keep({op['id']}, {macro});", f"{bind} let of: RID = {macro}; keep({op['id']}, of);",
                f"let of = {{ {bind} {macro} }}; keep({op['id']}, of);", f"keep({op['id']}, if true {{ {bind} {macro} }} else {{ unreachable!() }});"][op["form"]]
    elif op["k"] == "emit":
        s = c["signals"][op["sig"]]
        v, t = values(s, op["val"]), payload(s)
        if s["field"] and op["form"] != 1:
            f = f"f{op['sig']}"
            body = f"*self.{f} = {v}; self.{s['name']}.emit({'*' if op['form'] == 2 or 'unique' in s['field'] else ''}self.{f});"
        else:
            body = f"let v: {t} = {v}; self.{s['name']}.emit(v);"
    elif op["k"] == "disconnect":
        s = c["signals"][index[op["id"]]]
        body = f'let of = kept({op["id"]}); rt::log(format!("disconnected {{}}", self.{s["name"]}.disconnect(of)));'
    else:
        n = c["nodes"][op["to"]]
        body = f"let mut t: Tp<L{n['cls']}> = {get(c, dict(op, way='path'), '')}; t.free();"
    return f"fn op{i}(&mut self) {{ {body} }}"


def declaration(c):
    steps, index, dead, counts = script(c)
    out = ["class! {", "    declare E;", "    default let count: u32;"]
    for i, s in enumerate(c["signals"]):
        out.append(f"    signal {s['name']}({', '.join(f'p{j}: ' + TYPES[x['ty']][0][x['v']] for j, x in enumerate(s['args']))});")
        if s["field"]:
            init = "" if "default" in s["field"] else f" = {values(s, 0)}"
            out.append(f"    {s['field']} f{i}: {payload(s)}{init};")
    out += ["    " + method_source(c, m) for m in c["own"]]
    first = prefix(c, steps)
    out.append("    hk ready(&mut self) { " + " ".join(f"self.op{i}();" for i in first) + " }")
    for i, op in enumerate(c["ops"][:len(steps)]):
        if steps[i]:
            out.append("    " + op_source(c, i, op, index))
    out.append("}")
    for i, ms in enumerate(c["classes"]):
        out += ["class! {", f"    declare L{i};", "    default let count: u32;"] + ["    " + method_source(c, m) for m in ms] + ["}"]
    return "\n".join(out)


def render(c):
    steps, index, dead, counts = script(c)
    b = ["use node_tree::prelude::*;", "use node_tree::trees::TreeSimple;",
         "thread_local! { static KEPT: std::cell::RefCell<std::collections::BTreeMap<u32, RID>> = Default::default(); }",
         "fn keep(k: u32, of: RID) { KEPT.with(|m| m.borrow_mut().insert(k, of)); }", "fn kept(k: u32) -> RID { KEPT.with(|m| m.borrow()[&k]) }",
         declaration(c)]
    if c["tree"]:
        b += ["#[derive(Debug, Tree)]\npub struct Own { before: u8, base: Option<NodeTreeBase>, pub after: String }",
              "impl Own { fn new<I: Instanceable>(scene: I, v: LoggerVerbosity) -> Box<Self> { let mut t = Box::new(Own { before: 1, base: None, after: \"x\".into() }); "
              "initialize_base(&mut t, scene, v); t } }"]
    b.append("pub fn run() {\n    KEPT.with(|m| m.borrow_mut().clear());")

    def build(i):
        n = c["nodes"][i]
        kids = [j for j, m in enumerate(c["nodes"]) if m["parent"] == i]
        return (f"{{ let mut n = L{n['cls']}::new(); n.set_name(\"{n['name']}\"); let mut s = NodeScene::new(n); "
                + " ".join(f"s.append({build(j)});" for j in kids) + " s }")
    b.append("    let mut scene = NodeScene::new(E::new());")
    for i, n in enumerate(c["nodes"]):
        if n["parent"] < 0:
            b.append(f"    scene.append({build(i)});")
    kind = "Own" if c["tree"] else "TreeSimple"
    verb = ["All", "NoDebug", "OnlyPanics"][c["verb"]]
    b.append(f"    rt::logs(); let mut tree: Box<{kind}> = {kind}::new(scene, LoggerVerbosity::{verb});")
    b.append("    let root = tree.root().rid(); let e = |t: &mut Box<" + kind + ">| -> *mut E { t.get_node_mut(root).unwrap().as_any_mut().downcast_mut::<E>().unwrap() };")
    first = prefix(c, steps)
    want = [l for i in first for l in steps[i][0]]
    b.append("    rt::eq(\"calls made by ready()\", &rt::sorted(rt::logs()), &rt::sorted(Vec::<String>::from([" + ", ".join(want) + "])));")
    for i, step in enumerate(steps):
        if step is None or i in first:
            continue
        logs, end = step
        want = "rt::sorted(Vec::<String>::from([" + ", ".join(logs) + "]))"
        if end:
            b.append(f"    let e_ = e(&mut tree); rt::yes(\"a call of a freed listener panics (op {i})\", rt::panics(|| unsafe {{ (*e_).op{i}() }}));")
            b.append(f"    rt::some_of(\"calls before the one of the freed listener (op {i})\", rt::logs(), {want});")
            b.append("    rt::yes(\"the call of a freed listener terminates the tree\", tree.process().has_terminated());")
        else:
            b.append(f"    let e_ = e(&mut tree); unsafe {{ (*e_).op{i}() }} rt::eq(\"calls by op {i} ({c['ops'][i]['k']})\", &rt::sorted(rt::logs()), &{want});")
    if not any(s and s[1] for s in steps):
        b.append("    rt::eq(\"status\", &tree.process(), &TreeStatus::Running);" if False else "    rt::yes(\"the tree runs\", tree.process().is_active());")
        b.append("    rt::eq(\"calls by a frame\", &rt::logs(), &Vec::<String>::new());")
    if not any(s and s[1] for s in steps):
        b.append(f"    let e_: &E = unsafe {{ &*e(&mut tree) }}; rt::eq(\"count of E\", &*e_.count, &{counts.get(-1, 0)}u32);")
        for i, n in enumerate(c["nodes"]):
            if i not in dead:
                b.append(f"    {{ let t: Tp<L{n['cls']}> = e_.get_node(nodepath!(\"{path(c, i)}\")).unwrap(); rt::eq(\"count of {n['name']}\", &*t.count, &{counts.get(i, 0)}u32); }}")
    if c["tree"]:
        b.append("    rt::eq(\"fields of the tree\", &(tree.before, tree.after.as_str()), &(1u8, \"x\")); "
                 "rt::yes(\"as_any\", tree.as_any().is::<Own>() && tree.as_any_mut().is::<Own>() && tree.as_dyn().as_any().is::<Own>());")
    b.append("}")
    return "\n".join(b) + "\n"


def size(c):
    return len(c["ops"]) + len(c["signals"]) + len(c["nodes"])


def valid(c):
    if any(o["k"] == "disconnect" and not any(p["k"] == "connect" and p["id"] == o["id"] for p in c["ops"][:i]) for i, o in enumerate(c["ops"])):
        return False
    dead = set()
    for o in c["ops"]:
        if o["k"] in ("connect", "free") and o["to"] in dead:
            return False
        if o["k"] == "free":
            dead |= below(c, o["to"])
    return bool(c["ops"])


def smaller(c):
    out = []
    for i in range(len(c["ops"])):
        d = copy.deepcopy(c)
        del d["ops"][i]
        out.append(d)
    last = len(c["nodes"]) - 1
    if last > 0 and not any(o.get("to") == last for o in c["ops"]):
        d = copy.deepcopy(c)
        d["nodes"].pop()
        out.append(d)
    last = len(c["signals"]) - 1
    if last > 0 and not any(o.get("sig") == last for o in c["ops"]):
        used = {methods(c, o["to"])[o["m"]]["sig"] for o in c["ops"] if o["k"] == "connect"}
        if last not in used:
            d = copy.deepcopy(c)
            d["signals"].pop()
            for ms in d["classes"] + [d["own"]]:
                for m in ms:
                    m["sig"] = min(m["sig"], last - 1)
            out.append(d)
    for i, o in enumerate(c["ops"]):
        if o["k"] == "connect":
            for k, v in (("form", 0), ("delim", "{}"), ("var", "t"), ("way", "path")):
                if o[k] != v:
                    d = copy.deepcopy(c)
                    d["ops"][i][k] = v
                    out.append(d)
    for k, v in (("start", 0), ("tree", False), ("verb", 0)):
        if c[k] != v:
            d = copy.deepcopy(c)
            d[k] = v
            out.append(d)
    return [d for d in out if valid(d)]


def nontrivial(c):
    steps = script(c)[0]
    return sum(len(s[0]) for i, s in enumerate(steps) if s and c["ops"][i]["k"] == "emit") >= 1


def labels(c):
    steps = script(c)[0]
    out = {o["k"] for o in c["ops"]}
    out |= {"connect once" if o["once"] else "connect" for o in c["ops"] if o["k"] == "connect"}
    out |= {f"listener {methods(c, o['to'])[o['m']]['kind']}" for o in c["ops"] if o["k"] == "connect"}
    if any(s and s[1] for s in steps):
        out.add("call of a freed listener")
    if c["tree"]:
        out.add("derived tree")
    return out
