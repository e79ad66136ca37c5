"""P19: random `class!` declarations, each with a program that tests the generated type against the declaration."""
import copy, random, zlib

# (notations of the type, expressions, flags): e exportable, d has a default, c can be cloned.
TYPES = [
    (["u8", "std::primitive::u8"], ["7", "200", "0x0f"], "edc"),
    (["u16"], ["7", "65535"], "edc"),
    (["u32"], ["1 << 3", "70000"], "edc"),
    (["i8"], ["-5", "100"], "edc"),
    (["i16"], ["-1 - 1", "300"], "edc"),
    (["i32"], ["-12", "1 + 2 * 3"], "edc"),
    (["i64"], ["-9_000_000_000", "8"], "edc"),
    (["u64"], ["9_000_000_000", "8"], "edc"),
    (["f32"], ["1.5", "-0.25"], "edc"),
    (["f64"], ["1e10", "-2.5"], "edc"),
    (["bool"], ["true", "1 < 2"], "edc"),
    (["char"], ["'x'", "'ü'", "'\\''"], "edc"),
    (["String", "std::string::String", "::std::string::String"], ['"a b".to_string()', 'String::from("ö\\n\\"")', 'format!("{}-{}", 1, 2)'], "edc"),
    (["Option<u8>", "std::option::Option<u8>"], ["Some(3)", "Some(0)"], "edc"),
    (["Option<String>"], ['Some("x".to_string())'], "edc"),
    (["Vec<u8>", "std::vec::Vec<u8>", "::std::vec::Vec::<u8>"], ["vec![1, 2]", "Vec::from([9])"], "edc"),
    (["Vec<Vec<u8>>"], ["vec![vec![1], vec![]]"], "edc"),
    (["Vec<Option<String>>", "rt::Al<String>"], ['vec![Some("q".to_string())]'], "edc"),
    (["[u8; 3]", "[u8; { 1 + 2 }]"], ["[1, 2, 3]", "[4; 3]"], "edc"),
    (["(u8, String)"], ['(1, "t".to_string())'], "edc"),
    (["(i64,)"], ["(5,)"], "edc"),
    (["(u8, (i8, bool))"], ["(1, (-2, true))"], "dc"),
    (["std::collections::HashMap<String, i64>"], ['[("k".to_string(), 4)].into_iter().collect()'], "edc"),
    (["std::collections::BTreeMap<String, Vec<u8>>"], ['[("k".to_string(), vec![4])].into_iter().collect()'], "edc"),
    (["std::collections::BTreeSet<i32>"], ["[3, 1].into_iter().collect()"], "edc"),
    (["Box<i64>"], ["Box::new(4)"], "edc"),
    (["std::rc::Rc<String>"], ['std::rc::Rc::new("rc".to_string())'], "edc"),
    (["std::time::Duration"], ["std::time::Duration::from_millis(1500)"], "edc"),
    (["std::path::PathBuf"], ['"/a/b".into()'], "edc"),
    (["rt::Exp"], ["rt::Exp(4)", "rt::Exp(-4)"], "edc"),
    (["Vec<rt::Exp>"], ["vec![rt::Exp(1)]"], "edc"),
    (["rt::Plain"], ['rt::Plain { a: 4, b: "p".into() }', "rt::Plain { a: 1, ..Default::default() }"], "dc"),
    (["rt::Odd"], ["rt::Odd(1)"], "dc"),
    (["rt::Pair<u8, Vec<i8>>", "rt::Pair::<u8, Vec<i8>>"], ["rt::Pair { l: 1, r: vec![-1] }"], "dc"),
    (["rt::Pair<rt::Pair<u8, u8>, rt::deep::er::Thing<Option<i64>>>"],
     ["rt::Pair { l: rt::Pair { l: 1, r: 2 }, r: rt::deep::er::Thing(Some(3)) }"], "dc"),
    (["rt::deep::er::Thing<String>"], ['rt::deep::er::Thing("d".to_string())'], "dc"),
    (["rt::Mode"], ["rt::Mode::On(3)", "rt::Mode::Named { x: -1 }"], "dc"),
    (["rt::NoDefault"], ["rt::NoDefault(3)"], "c"),
    (["Option<rt::NoDefault>"], ["Some(rt::NoDefault(3))"], "dc"),
    (["rt::NoClone"], ["rt::NoClone(3)", "rt::NoClone(-3)"], ""),
    (["Vec<rt::NoClone>"], ["vec![rt::NoClone(3)]"], "d"),
    (["Box<dyn rt::Shape>", "std::boxed::Box<dyn rt::Shape + 'static>"], ['Box::new(rt::Plain { a: 4, b: String::new() }) as Box<dyn rt::Shape>'], ""),
    (["*mut u8", "*mut std::primitive::u8"], ["std::ptr::null_mut()", "8 as *mut u8"], "c"),
    (["*const [u8; 2]"], ["std::ptr::null()"], "c"),
    (["&'static str"], ['"st"', '"a\\tb"'], "dc"),
    (["&'static [u8]"], ['b"ab".as_slice()'], "dc"),
    (["std::cell::Cell<i32>"], ["std::cell::Cell::new(4)"], "dc"),
    (["std::sync::Mutex<Option<u8>>"], ["std::sync::Mutex::new(Some(1))"], "d"),
    (["()"], ["()"], "dc"),
    (["std::marker::PhantomData<fn(u8) -> u8>"], ["std::marker::PhantomData"], "dc"),
    (["<Vec<u8> as IntoIterator>::Item"], ["3"], "dc"),
]
CONSTS = [("i32", "-4"), ("&str", '"Hello"'), ("&'static str", '"st"'), ("[u8; 3]", "[1, 2, 3]"), ("f64", "0.5"),
          ("Option<u8>", "Some(1)"), ("u64", "1 << 3"), ("rt::NoDefault", "rt::NoDefault(4)"), ("(u8, bool)", "(1, true)"),
          ("usize", "{ 2 + 3 }"), ("&[&str]", '&["a", "b"]'), ("u8", "if true { 1 } else { 2 }")]
FIELD_NAMES = ("count health speed x y x1 _x X map owned_state node scene state tree self_ args tp_ value r#type r#match größe "
               "is_owner parent type_name children owner name status rid default export unique signal hk declare extends depth "
               "a_rather_long_name_with_many_words field init result ok Unique root settings metadata metadata").split()
FN_NAMES = "foo bar baz compute helper f g signal hk update_it on_event declare extends get_a get_b set_a set_b größer r#do".split()
CLASS_NAMES = ["Thing", "N", "thing", "My_Class", "Größe", "NodeA", "Player2D", "Foo", "Field_", "Class", "Declare", "Signal2"]
KINDS = ["regular", "export", "exportdefault", "unique", "default"]
KEYWORDS = {"regular": "", "export": "export ", "exportdefault": "export default ", "unique": "unique ", "default": "default "}
FIELD_ATTRS = ["/// A field.\n", "#[allow(dead_code)]\n", '#[doc = "x"]\n', "#[cfg(all())]\n", "#[cfg_attr(all(), allow(dead_code))]\n", "// Nothing.\n", "/* { */ "]
FN_ATTRS = ["/// A function.\n", "#[inline(always)]\n", "#[allow(unused)]\n", "#[cfg(all())]\n", "#[must_use]\n", "// } \n"]
HOOKS = ["loaded", "ready", "process", "terminal", "process_mode"]


def attrs(r, pool, p=0.3):
    return "".join(r.choice(pool) for _ in range(3) if r.random() < p)


def plain(name):
    return name[2:] if name.startswith("r#") else name


def key(name):
    """The key under which a field is saved: that of the node's own data is taken."""
    return "r#metadata" if plain(name) == "metadata" else plain(name)


def pick_type(r, need=""):
    while True:
        i = r.randrange(len(TYPES))
        if all(f in TYPES[i][2] for f in need):
            return i, r.randrange(len(TYPES[i][0]))


def twin(name):
    """Another class name that differs in nothing but the case of letters."""
    return next(n for n in (name.upper(), name.lower(), name.swapcase()) if n != name)


NEED = {"regular": "c", "export": "e", "exportdefault": "e", "unique": "", "default": "dc"}


def generate(r, big=False):
    c = dict(name=r.choice(CLASS_NAMES), pub=r.random() < 0.6, place="fn" if r.random() < 0.12 else "mod",
             attrs=attrs(r, ["/// A class.\n", "#[allow(dead_code)]\n", "#[cfg(all())]\n", "#[must_use]\n"]),
             align=r.choice([0, 0, 0, 64]), items=[], traits=[], init_attr=r.choice(["", "", "/// Makes it.\n", "#[track_caller]\n", "#[inline]\n#[must_use]\n"]),
             init=None, twin=r.random() < 0.15)
    tick = [0]

    def init_expr(ty):
        e = r.choice(TYPES[ty][1])
        form = r.randrange(9)
        t = 0
        if form >= 3:
            tick[0] += 1
            t = tick[0]
        return dict(e=e, form=form, t=t)

    names = FIELD_NAMES[:]
    r.shuffle(names)
    names = list(dict.fromkeys(names))
    nfields = r.choice([0, 1, 2, 3, 4, 6, 9 if big else 5]) if r.random() < 0.95 else r.randrange(10, 19)
    for i in range(nfields):
        kind = r.choice(KINDS)
        ty, v = pick_type(r, NEED[kind])
        f = dict(k="field", kind=kind, name=names.pop(), ty=ty, v=v, pub=r.random() < 0.5, attrs=attrs(r, FIELD_ATTRS), init=None, how=None)
        if kind in ("regular", "export", "unique"):
            if r.random() < 0.6:
                f["init"] = init_expr(ty)
            else:
                f["how"] = r.choice(["arg", "arg", "local", "localtyped", "computed", "late", "tuple", "pattern"])
                f["val"] = r.choice(TYPES[ty][1])
        f["other"] = r.choice(TYPES[ty][1])
        c["items"].append(f)
    for i in range(r.choice([0, 0, 1, 1, 2, 3])):
        n = r.choice([0, 1, 1, 2, 3, 4])
        c["items"].append(dict(k="signal", name=names.pop(), pub=r.random() < 0.5, attrs=attrs(r, FIELD_ATTRS),
                               args=[dict(ty=t, v=v, name=r.choice(["a", "_", "count", "mut b", "_x"]) if n == 1 else f"p{j}", val=r.choice(TYPES[t][1]))
                                     for j in range(n) for (t, v) in [pick_type(r)]], trailing=n > 0 and r.random() < 0.2))
    consts = []
    for i in range(r.choice([0, 0, 1, 2])):
        ty, e = r.choice(CONSTS)
        if consts and r.random() < 0.3 and consts[-1][1] == "i32":
            ty, e = "i32", f"Self::{consts[-1][0]} + 1"
        consts.append((f"K{i}", ty))
        c["items"].append(dict(k="const", name=f"K{i}", ty=ty, e=e, pub=r.random() < 0.5, attrs=attrs(r, FN_ATTRS[:1] + FN_ATTRS[2:4])))
    fnames = FN_NAMES[:]
    r.shuffle(fnames)
    for i in range(r.choice([0, 1, 2, 3, 6 if big else 3])):
        c["items"].append(dict(k="fn", name=fnames.pop(), t=r.choice(["getter", "getter", "setter", "setter", "static", "generic", "lifetime", "pattern",
                                                                     "recursive", "byvalue", "const", "emit", "make", "located", "inner", "selfref", "probe"]),
                               pub=r.random() < 0.5, attrs=attrs(r, FN_ATTRS), ref=r.random(), ghost=r.random() < 0.1))
    for h in HOOKS:
        if r.random() < 0.4:
            c["items"].append(dict(k="hook", name=h, attrs=attrs(r, FN_ATTRS[:4]), arg=r.randrange(4), mode=r.choice(["Inherit", "Always", "Pausable", "Inverse"]),
                                   ref=r.random(), ghost=r.random() < 0.1, form=r.randrange(4)))
    for i in range(r.choice([0, 0, 0, 1, 1])):
        c["items"].append(dict(k="ghost", t=r.choice(["fn", "const", "hook", "field", "signal"]), name=f"ghost{i}"))
    for i in range(r.choice([0, 1, 1, 2, 3])):
        c["traits"].append(dict(name=f"T{i}", extended=r.random() < 0.6, form=r.randrange(3), val=r.randrange(100)))
    r.shuffle(c["items"])
    if r.random() < 0.35 or any(i["k"] == "field" and i["how"] for i in c["items"]):
        tick[0] += 1
        c["init"] = dict(extra=r.choice([0, 0, 1, 2]), tick=tick[0] if r.random() < 0.4 else 0, trail=r.choice(["", "", "expr", "macro", "if", "block"]),
                         mut=r.random() < 0.2, pos=r.random(), comma=r.random() < 0.2)
    return c


# ---------------------------------------------------------------- rendering

def ty(f):
    return TYPES[f["ty"]][0][f["v"]]


def expr(init, t):
    e, tick = init["e"], init["t"]
    return [f"{e}", f"{{ {e} }}", f"if true {{ {e} }} else {{ unreachable!() }}", f"rt::tick({tick}, {e})", f"{{ let v: {t} = {e}; rt::tick({tick}, v) }}",
            f"(|| rt::tick({tick}, {e}))()", f"match rt::tick({tick}, 1) {{ 1 => {e}, _ => panic!() }}",
            f"rt::id::<{t}>(rt::tick({tick}, {e}))", f"loop {{ break rt::tick({tick}, {e}); }}"][init["form"]]


def parts(c):
    by = lambda k: [i for i in c["items"] if i["k"] == k]
    return by("field"), by("signal"), by("const"), by("fn"), by("hook")


def initial(f):
    """The expression of a field's value after new()."""
    if f["kind"] in ("exportdefault", "default"):
        return f"<{ty(f)} as Default>::default()"
    return f["init"]["e"] if f["init"] else f["val"]


def ctor_args(c):
    """(declarations, expressions) of the constructor's parameters."""
    fields = parts(c)[0]
    if not c["init"]:
        return [], []
    d, e = [], []
    for i in range(c["init"]["extra"]):
        d.append([f"arg{i}: i64", f"(left{i}, _): (i64, &str)"][i % 2])
        e.append([f"{i + 3}", f'({i + 3}, "x")'][i % 2])
    for f in fields:
        if f["how"] == "arg":
            d.append(("mut " if c["init"]["mut"] else "") + f"{f['name']}: {ty(f)}")
            e.append(f["val"])
        elif f["how"] == "pattern":
            d.append(f"({f['name']}, _): ({ty(f)}, u8)")
            e.append(f"({f['val']}, 0)")
        elif f["how"] == "computed":
            d.append(f"from_{plain(f['name'])}: (u8, {ty(f)})")
            e.append(f"(1, {f['val']})")
    return d, e


def init_body(c):
    out = []
    i = c["init"]
    for f in parts(c)[0]:
        n, t = f["name"], ty(f)
        out += {"local": [f"let {n} = rt::id::<{t}>({f.get('val')});"], "localtyped": [f"let {n}: {t} = {f.get('val')};"],
                "computed": [f"let {n} = from_{plain(n)}.1;"], "late": [f"let {n}: {t};", f"{{ {n} = {f.get('val')}; }}"],
                "tuple": [f"let ({n}, _unused): ({t}, u8) = ({f.get('val')}, 1);"]}.get(f["how"], [])
    if i["tick"]:
        out.insert(int(i["pos"] * (len(out) + 1)), f"rt::tick({i['tick']}, ());")
    if c["init_attr"] == "#[track_caller]\n":
        out.append('rt::log(format!("made in line {}", std::panic::Location::caller().line()));')
    out += {"expr": ["rt::id(())"], "macro": ["assert!(true)"], "if": ["if false { panic!() }"], "block": ["{ let q = 1; let _ = q; }"]}.get(i["trail"], [])
    return out


def resolve(c):
    """Functions that refer to fields, signals and constants: which one?"""
    fields, signals, consts, fns, hooks = parts(c)
    for f in fns:
        pool = {"getter": [x for x in fields if "c" in TYPES[x["ty"]][2]], "setter": fields, "const": consts, "emit": signals}.get(f["t"])
        if pool is None:
            f["target"] = None
        elif not pool:
            f["target"], f["t2"] = None, "static"
        else:
            f["target"] = pool[int(f["ref"] * len(pool))]
    return {f["name"]: (f["t"] if f["target"] is not None or f["t"] not in ("getter", "setter", "const", "emit") else "static") for f in fns}


def sig_type(s):
    a = [TYPES[x["ty"]][0][x["v"]] for x in s["args"]]
    return a[0] if len(a) == 1 else "(" + ", ".join(a) + ")"


def sig_value(s):
    a = [x["val"] for x in s["args"]]
    v = a[0] if len(a) == 1 else "(" + ", ".join(a) + ")"
    return f"{{ let v: {sig_type(s)} = {v}; v }}"


def fn_source(c, f, kinds):
    n, t, x = f["name"], kinds[f["name"]], f["target"]
    cls = c["name"]
    if t == "getter":
        return f"fn {n}(&self) -> {ty(x)} {{ (*self.{x['name']}).clone() }}"
    if t == "setter":
        return f"fn {n}(&mut self, v: {ty(x)}) {{ *self.{x['name']} = v; }}"
    if t == "const":
        out = x["ty"].replace("&'static ", "&").replace("&", "&'static ")
        return f"fn {n}(&self) -> {out} {{ Self::{x['name']} }}"
    if t == "emit":
        return f"fn {n}(&self) {{ self.{x['name']}.emit({sig_value(x)}); }}"
    return {
        "static": f"fn {n}(a: i32, b: i32) -> i32 {{ a * 10 + b }}",
        "generic": f"fn {n}<A: Clone, const L: usize>(&self, a: &A) -> [A; L] where A: std::fmt::Debug {{ std::array::from_fn(|_| a.clone()) }}",
        "lifetime": f"fn {n}<'a>(&self, a: &'a str, _b: &str) -> &'a str {{ a }}",
        "pattern": f"fn {n}(&self, (a, b): (i32, i32), [x, ..]: [u8; 3]) -> impl Iterator<Item = i32> {{ (a..b).map(move |v| v + x as i32) }}",
        "recursive": f"fn {n}(v: u64) -> u64 {{ if v < 2 {{ 1 }} else {{ v * Self::{n}(v - 1) }} }}",
        "byvalue": f"fn {n}(mut self) -> String {{ self.set_name(\"by value\"); self.name().to_string() }}",
        "make": f"fn {n}() -> Self {{ {cls}::new({', '.join(ctor_args(c)[1])}) }}",
        "located": f"#[track_caller]\n    fn {n}() -> u32 {{ std::panic::Location::caller().line() }}",
        "inner": f"fn {n}(&self) -> i64 {{ #[derive(Clone)] struct In {{ a: i64 }} fn two(x: &In) -> i64 {{ x.a * 2 }} macro_rules! m {{ ($e:expr) => {{ two(&In {{ a: $e }}) }} }} m!(21) }}",
        "selfref": f"fn {n}(self: &Self) -> usize {{ self.name().len() }}",
        "probe": f"fn {n}(&self) -> i64 {{ 5 }}",
    }[t]


def fn_test(c, f, kinds):
    """Statements that test a function; `fresh!()` makes an instance."""
    n, t, x, cls = f["name"], kinds[f["name"]], f["target"], c["name"]
    w = f'"fn {n}"'
    if t == "getter":
        return f"rt::same({w}, &fresh!().{n}(), &{{ let v: {ty(x)} = {initial(x)}; v }});"
    if t == "setter":
        return f"let mut m = fresh!(); m.{n}({x['other']}); rt::same({w}, &*m.{x['name']}, &{{ let v: {ty(x)} = {x['other']}; v }});"
    if t == "const":
        return f"rt::same({w}, &fresh!().{n}(), &{cls}::{x['name']});"
    if t == "emit":
        return (f"let m = fresh!(); unsafe {{ m.{x['name']}.connect(|v| rt::log(format!(\"{{v:?}}\"))) }}; rt::logs(); m.{n}(); "
                f"rt::eq({w}, &rt::logs(), &vec![{{ let v: {sig_type(x)} = {sig_value(x)}; format!(\"{{v:?}}\") }}]);")
    return {
        "static": f"rt::eq({w}, &{cls}::{n}(3, 4), &34);",
        "generic": f"rt::eq({w}, &fresh!().{n}::<_, 2>(&\"g\"), &[\"g\", \"g\"]);",
        "lifetime": f"let s = String::from(\"life\"); let g = fresh!().{n}(&s, &String::from(\"t\")); rt::eq({w}, g, \"life\");",
        "pattern": f"rt::eq({w}, &fresh!().{n}((1, 4), [1, 2, 3]).collect::<Vec<_>>(), &vec![2, 3, 4]);",
        "recursive": f"rt::eq({w}, &{cls}::{n}(5), &120);",
        "byvalue": f"rt::eq({w}, &fresh!().{n}(), \"by value\");",
        "make": f"rt::eq({w}, {cls}::{n}().name(), \"{cls}\");",
        "located": f"rt::eq({w}, &{cls}::{n}(), &line!());",
        "inner": f"rt::eq({w}, &fresh!().{n}(), &42);",
        "selfref": f"rt::eq({w}, &fresh!().{n}(), &\"{cls}\".len());",
        "probe": f"rt::eq({w}, &fresh!().{n}(), &5);",
    }[t]


def hook_source(c, h):
    n = h["name"]
    if n == "process_mode":
        body = [f"ProcessMode::{h['mode']}", f"{{ ProcessMode::{h['mode']} }}", f"let m = ProcessMode::{h['mode']}; m", f"return ProcessMode::{h['mode']};"][h["form"]]
        return f"hk process_mode(&self) -> ProcessMode {{ {body} }}"
    exported = [f for f in parts(c)[0] if f["kind"] in ("export", "exportdefault")]
    log = f'rt::log("{n}")'
    if n in ("ready", "process") and exported and h["ref"] < 0.6:
        f = exported[int(h["ref"] / 0.6 * len(exported))]
        log = f'rt::log(format!("{n} {{:?}}", *self.{f["name"]}))'
    if n == "process":
        arg = [", delta: f32", ", _delta: f32", ", _: f32", ", mut delta: f32,"][h["arg"]]
        pre = "assert!(delta >= 0.0 && delta.is_finite()); " if "_" not in arg else ""
        if h["arg"] == 3:
            pre += "delta += 1.0; let _ = delta; "
    elif n == "terminal":
        arg = [", reason: TerminationReason", ", reason: node_tree::prelude::TerminationReason", ", reason: TerminationReason,", ", _: TerminationReason"][h["arg"]]
        pre = ""
        log = 'rt::log(format!("terminal {reason:?}"))' if h["arg"] < 3 else 'rt::log("terminal RemovedAsChild")'
    else:
        arg, pre = ["", "", ",", ""][h["arg"]], ""
    body = [f"{pre}{log}", f"{pre}{log};", f"{pre}if true {{ {log}; return; }} panic!()", f"{{ {pre}{log} }}"][h["form"]]
    return f"hk {n}(&mut self{arg}) {{ {body} }}"


def hook_log(c, h, values=initial):
    """The expression of what a hook logs."""
    n = h["name"]
    if n == "terminal":
        return '"terminal RemovedAsChild".to_string()'
    exported = [f for f in parts(c)[0] if f["kind"] in ("export", "exportdefault")]
    if n in ("ready", "process") and exported and h["ref"] < 0.6:
        f = exported[int(h["ref"] / 0.6 * len(exported))]
        return f'{{ let v: {ty(f)} = {values(f)}; format!("{n} {{v:?}}") }}'
    return f'"{n}".to_string()'


# A member that the configuration leaves out, however its attributes say so.
ABSENT = ["#[cfg(any())]\n", "#[cfg(all())]\n#[cfg(any())]\n", "#[cfg(any())]\n#[cfg(all())]\n", "/// Left out.\n#[cfg(not(all()))]\n#[allow(dead_code)]\n", "#[allow(dead_code)]\n#[cfg(all())]\n#[cfg(all(all(), any()))]\n"]
ABSENT_FIELDS = [("", " = nothing()"), ("export ", " = nothing()"), ("unique ", " = nothing()"), ("default ", ""), ("export default ", "")]


def absent(name):
    return ABSENT[zlib.crc32(name.encode()) % 5]


def declaration(c):
    kinds = resolve(c)
    out = []
    lines = []
    for it in c["items"]:
        p = "pub " if it.get("pub") else ""
        a = it.get("attrs", "")
        if it["k"] == "field":
            init = f" = {expr(it['init'], ty(it))}" if it["init"] else ""
            lines.append(f"{a}{p}{KEYWORDS[it['kind']]}let {it['name']}: {ty(it)}{init};")
        elif it["k"] == "signal":
            args = ", ".join(f"{x['name']}: {TYPES[x['ty']][0][x['v']]}" for x in it["args"]) + ("," if it["trailing"] else "")
            lines.append(f"{a}{p}signal {it['name']}({args});")
        elif it["k"] == "const":
            lines.append(f"{a}{p}const {it['name']}: {it['ty']} = {it['e']};")
        elif it["k"] == "fn":
            if it["ghost"]:
                lines.append(f"{absent(c['name'] + it['name'])}fn {it['name']}(&self) -> NoSuchType {{ no_such_thing() }}")
            lines.append(f"{a}" + (fn_source(c, it, kinds).replace("\n    fn ", f"\n    {p}fn ", 1) if kinds[it["name"]] == "located" else p + fn_source(c, it, kinds)))
        elif it["k"] == "hook":
            if it["ghost"]:
                lines.append(f"{absent(c['name'] + it['name'])}hk {it['name']}(&mut self) {{ no_such_thing() }}")
            lines.append(a + hook_source(c, it))
        elif it["k"] == "ghost":
            n = it["name"]
            lines.append(absent(c['name'] + n) + {"fn": f"pub fn {n}(&self, a: NoSuchType) {{ nothing }}", "const": f"const {n.upper()}: NoSuchType = nothing;",
                                              "hook": "hk ready(&mut self) { no_such_thing() }", "field": "pub {1}let {0}: NoSuchType{2};".format(n, *ABSENT_FIELDS[zlib.crc32(n.encode() + c["name"].encode()) % 5]),
                                              "signal": f"signal {n}(a: NoSuchType);"}[it["t"]])
    if c["init"]:
        d, _ = ctor_args(c)
        comma = "," if d and c["init"]["comma"] else ""
        lines.insert(int(c["init"]["pos"] * (len(lines) + 1)), f"{c['init_attr']}hk _init({', '.join(d)}{comma}) {{\n        " + "\n        ".join(init_body(c)) + "\n    }")
    ext = [t["name"] for t in c["traits"] if t["extended"]]
    out.append("class! {")
    if c["attrs"]:
        out.append("    " + c["attrs"].rstrip("\n"))
    if c["align"]:
        out.append(f"    #[repr(align({c['align']}))]")
    out.append(f"    {'pub ' if c['pub'] else ''}declare {c['name']}{' extends ' + ', '.join(ext) if ext else ''};")
    out += ["    " + l.replace("\n", "\n    ") for l in lines]
    out.append("}")
    return "\n".join(out)


def render(c):
    kinds = resolve(c)
    fields, signals, consts, fns, hooks = parts(c)
    cls = c["name"]
    args = ", ".join(ctor_args(c)[1])
    pre = []
    for t in c["traits"]:
        body = ["fn v(&self) -> i64; fn set(&mut self, v: &str);", "fn v(&self) -> i64 { self.w() } fn w(&self) -> i64; fn set(&mut self, v: &str);",
                "fn v(&self) -> i64; fn set(&mut self, v: &str); fn unused<A>(_: A) where Self: Sized {}"][t["form"]]
        vis = "pub " if c["pub"] else ""
        pre.append(f"{vis}trait {t['name']} {{ {body} }}")
        m = "w" if t["form"] == 1 else "v"
        pre.append(f"impl {t['name']} for {cls} {{ fn {m}(&self) -> i64 {{ {t['val']} }} fn set(&mut self, v: &str) {{ self.set_name(v) }} }}")
    if c.get("twin"):
        t = twin(cls)
        pre.append(f"class! {{ declare {t}; export let twin_value: u8 = 1; hk ready(&mut self) {{ rt::log(format!(\"{t} {{}}\", *self.twin_value)) }} }}")
    b = []
    b.append(f"macro_rules! fresh {{ () => {{ {cls}::new({args}) }} }}")
    ticks = sorted([f["init"]["t"] for f in fields if f["init"] and f["init"]["t"]] + ([c["init"]["tick"]] if c["init"] and c["init"]["tick"] else []))
    b.append("rt::ticks();")
    b.append(f"let mut n: {cls} = fresh!();")
    b.append(f"rt::eq(\"evaluated initialisers\", &rt::ticks(), &Vec::<u32>::from({ticks}));")
    b.append(f"rt::eq(\"name\", n.name(), \"{cls}\");")
    b.append(f"rt::eq(\"name_as_type\", &n.name_as_type(), std::any::type_name::<{cls}>());")
    b.append(f"let _: &dyn Node = n.as_dyn(); rt::yes(\"as_any_ref\", n.as_any_ref().is::<{cls}>() && n.as_any_mut().is::<{cls}>() && (n.as_dyn().as_any_ref()).is::<{cls}>());")
    if c["align"]:
        b.append(f"rt::eq(\"alignment\", &std::mem::align_of::<{cls}>(), &{c['align']}usize);")
    wrapper = {"regular": "Field", "export": "ExportableField", "exportdefault": "ExportableField", "unique": "UniqueField", "default": "DefaultField"}
    b.append("macro_rules! fields { ($n:expr, $w:expr) => {{ let (n, w) = ($n, $w);")
    for f in fields:
        b.append(f"    {{ let x: &{wrapper[f['kind']]}<{ty(f)}> = &n.{f['name']}; let v: {ty(f)} = {initial(f)}; "
                 f"rt::same(&format!(\"field {plain(f['name'])} {{w}}\"), &**x, &v); }}")
    b.append("    let _ = (n, w); }} }")
    b.append('fields!(&n, "after new()");')
    for s in signals:
        t, v = sig_type(s), sig_value(s)
        b.append(f"{{ let s: &Signal<{t}> = &n.{s['name']}; unsafe {{ s.connect(|v: &{t}| rt::log(format!(\"{{v:?}}\"))) }}; rt::logs(); s.emit({v}); "
                 f"rt::eq(\"signal {plain(s['name'])}\", &rt::logs(), &vec![{{ let v: {t} = {v}; format!(\"{{v:?}}\") }}]); }}")
    for k in consts:
        b.append(f"{{ let v: {k['ty']} = {cls}::{k['name']}; let w: {k['ty']} = {k['e'].replace('Self::', cls + '::')}; rt::same(\"const {k['name']}\", &v, &w); }}")
    for f in fns:
        b.append("{ " + fn_test(c, f, kinds) + " }")

    # Clones.
    b.append(f"for by_dyn in [false, true] {{ let c: Box<{cls}> = if by_dyn {{ let b: Box<dyn Node> = n.clone_as_instance(); unsafe {{ Box::from_raw(Box::into_raw(b) as *mut {cls}) }} }} else {{ Box::new(n.clone()) }};")
    for f in fields:
        if f["kind"] == "unique":
            b.append(f"    rt::yes(\"unique field {plain(f['name'])} of a clone is not void\", c.{f['name']}.is_void());")
        else:
            b.append(f"    {{ let v: {ty(f)} = {initial(f)}; rt::same(\"field {plain(f['name'])} of a clone\", &*c.{f['name']}, &v); }}")
    for s in signals:
        b.append(f"    rt::logs(); c.{s['name']}.emit({sig_value(s)}); rt::eq(\"calls by signal {plain(s['name'])} of a clone\", &rt::logs().len(), &0usize);")
    b.append(f"    rt::eq(\"name of a clone\", c.name(), \"{cls}\"); }}")
    b.append('fields!(&n, "after cloning");')

    # Saving and loading.
    exported = [f for f in fields if f["kind"] in ("export", "exportdefault")]
    b.append("{ let mut s = fresh!(); let _ = &mut s;")
    for f in exported:
        b.append(f"    *s.{f['name']} = {f['other']};")
    b.append("    let text = NodeScene::new(s).save_to_str().unwrap(); let map = rt::saved(&text);")
    keys = sorted([key(f["name"]) for f in exported] + ["metadata"])
    b.append("    rt::eq(\"saved keys\", &map.keys().cloned().collect::<Vec<_>>(), &{ let mut v = vec![" + ", ".join(f'"{k}".to_string()' for k in keys) + "]; v.sort(); v });")
    for f in exported:
        b.append(f"    {{ let v: {ty(f)} = {f['other']}; rt::same(\"saved value of {plain(f['name'])}\", &<{ty(f)} as Exportable>::from_value(map[\"{key(f['name'])}\"].clone()), &Some(v)); }}")
    b.append(f"    let scene = NodeScene::load_from_str(&text).unwrap(); let w = rt::walk(&scene); let l: &{cls} = w[0].is(\"the loaded node\"); rt::eq(\"name of the loaded node\", l.name(), \"{cls}\");")
    for f in fields:
        n = f["name"]
        if f["kind"] in ("regular", "unique"):
            b.append(f"    rt::yes(\"field {plain(n)} of a loaded node is not void\", l.{n}.is_void());")
        elif f["kind"] == "default":
            b.append(f"    rt::same(\"field {plain(n)} of a loaded node\", &*l.{n}, &<{ty(f)} as Default>::default());")
        else:
            b.append(f"    {{ let v: {ty(f)} = {f['other']}; rt::same(\"field {plain(n)} of a loaded node\", &*l.{n}, &v); }}")
    for s in signals:
        b.append(f"    rt::logs(); l.{s['name']}.emit({sig_value(s)}); rt::eq(\"calls by signal {plain(s['name'])} of a loaded node\", &rt::logs().len(), &0usize);")
    by = {h["name"]: h for h in hooks}
    other = lambda f: f["other"]
    logs = lambda hs, values=initial: "Vec::<String>::from([" + ", ".join(hook_log(c, by[h], values) for h in hs if h in by) + "])"
    b.append("    rt::logs(); let _tree = TreeSimple::new(scene, LoggerVerbosity::NoDebug); "
             f"rt::eq(\"hooks of a loaded node\", &rt::logs(), &({logs(['loaded', 'ready'], other)}));")
    b.append("}")

    if c.get("twin"):
        t = twin(cls)
        b.append(f"{{ let mut t = {t}::new(); *t.twin_value = 9; let mut s = NodeScene::new(fresh!()); s.append(NodeScene::new(t)); let text = s.save_to_str().unwrap();")
        b.append(f"  let scene = NodeScene::load_from_str(&text).unwrap(); let w = rt::walk(&scene); let _: &{cls} = w[0].is(\"the loaded node\"); "
                 f"let t: &{t} = w[1].is(\"the loaded child\"); rt::eq(\"field of the loaded child\", &*t.twin_value, &9u8); }}")

    # In a tree.
    mode = by["process_mode"]["mode"] if "process_mode" in by else "Inherit"
    b.append("{ let mut scene = NodeScene::new(rt::Host::new()); scene.append(NodeScene::new(fresh!())); rt::logs();")
    b.append("    let mut tree = TreeSimple::new(scene, LoggerVerbosity::NoDebug);")
    b.append(f"    rt::eq(\"hooks of an added node\", &rt::logs(), &({logs(['ready'])}));")
    run = lambda on: logs(["process"]) if on else "Vec::<String>::new()"
    b.append(f"    tree.process(); rt::eq(\"hooks of a frame\", &rt::logs(), &({run(mode != 'Inverse')}));")
    b.append(f"    tree.pause(); tree.process(); rt::eq(\"hooks of a paused frame\", &rt::logs(), &({run(mode in ('Always', 'Inverse'))}));")
    b.append(f"    tree.unpause(); tree.process(); rt::eq(\"hooks of an unpaused frame\", &rt::logs(), &({run(mode != 'Inverse')}));")
    b.append("    let host = tree.root().rid(); let host: &mut dyn Node = tree.get_node_mut(host).unwrap();")
    b.append("    { let mut tp: TpDyn = host.get_child_dyn(0).unwrap();")
    b.append(f"      rt::yes(\"is\", tp.is::<{cls}>() && !tp.is::<rt::Host>());")
    b.append("      rt::yes(\"it is of a trait of others\", !tp.is_of::<dyn rt::Shape>());")
    last = cls
    for t in c["traits"]:
        if t["extended"]:
            b.append(f"      rt::yes(\"it is not of {t['name']}\", tp.is_of::<dyn {t['name']}>()); {{ let v: &dyn {t['name']} = tp.cast().unwrap(); rt::eq(\"{t['name']}\", &v.v(), &{t['val']}); }}")
            last = f"as {t['name']}"
            b.append(f"      {{ let v: &mut dyn {t['name']} = tp.cast_mut().unwrap(); v.set(\"{last}\"); }} rt::eq(\"name set by {t['name']}\", tp.name(), \"{last}\");")
        else:
            b.append(f"      rt::yes(\"it is of {t['name']}\", !tp.is_of::<dyn {t['name']}>() && tp.cast::<dyn {t['name']}>().to_option().is_none());")
    b.append("    }")
    b.append(f"    rt::logs(); rt::yes(\"remove_child\", host.remove_child(\"{last}\")); rt::eq(\"hooks of a removed node\", &rt::logs(), &({logs(['terminal'])}));")
    b.append("}")
    if c["init"] and c["init_attr"] == "#[track_caller]\n":
        b.append(f"rt::logs(); let _at = {cls}::new({args}); rt::eq(\"caller of new()\", &rt::logs(), &vec![format!(\"made in line {{}}\", line!())]);")
    inner = "\n        ".join(b)

    # From outside.
    o = []
    if c["pub"] and c["place"] == "mod":
        o.append(f"let mut n: m::{cls} = m::{cls}::new({args});")
        for f in fields:
            if f["pub"]:
                o.append(f"*n.{f['name']} = {f['other']}; {{ let v: {ty(f)} = {f['other']}; rt::same(\"pub field {plain(f['name'])}\", &*n.{f['name']}, &v); }}")
        for s in signals:
            if s["pub"]:
                o.append(f"rt::logs(); n.{s['name']}.emit({sig_value(s)}); rt::eq(\"pub signal\", &rt::logs().len(), &0usize);")
        for k in consts:
            if k["pub"]:
                o.append(f"{{ let v: {k['ty']} = m::{cls}::{k['name']}; rt::same(\"pub const {k['name']}\", &v, &v); }}")
        for f in fns:
            if f["pub"]:
                t = kinds[f["name"]]
                x = f["target"]
                if not ((t == "setter" and not x["pub"]) or (t == "emit" and not x["pub"]) or (t == "const" and not x["pub"])):
                    o.append("{ " + fn_test(c, f, kinds).replace(f"{cls}::", f"m::{cls}::") + " }")
            elif kinds[f["name"]] == "probe":
                o.append(f"{{ trait Pr {{ fn {f['name']}(&self) -> &'static str {{ \"private\" }} }} impl Pr for m::{cls} {{}} rt::eq(\"visibility of fn {f['name']}\", n.{f['name']}(), \"private\"); }}")
        o.append("let _ = &mut n;")
        o.insert(0, f"macro_rules! fresh {{ () => {{ m::{cls}::new({args}) }} }}")
    outer = "\n    ".join(o)
    head = "use node_tree::prelude::*;\nuse node_tree::trees::TreeSimple;\n"
    decl = declaration(c)
    if c["place"] == "fn":
        return head + "pub fn run() {\n" + "\n".join(pre) + "\n" + decl + "\n" + inner + "\n}\n"
    return (head + "mod m {\nuse super::*;\n" + "\n".join(pre) + "\n" + decl + "\n    pub fn inner() {\n        " + inner + "\n    }\n}\npub fn run() {\n    m::inner();\n    "
            + outer + "\n}\n")


# ---------------------------------------------------------------- shrinking

def size(c):
    return len(c["items"]) + len(c["traits"]) + (1 if c["init"] else 0)


def smaller(c):
    """Simpler declarations that are still valid."""
    out = []

    def add(d):
        fields = parts(d)[0]
        if any(f["how"] for f in fields) and not d["init"]:
            return
        out.append(d)

    n = len(c["items"])
    w = n // 2
    while w >= 1:
        for i in range(0, n, w):
            d = copy.deepcopy(c)
            del d["items"][i:i + w]
            add(d)
        w //= 2
    for i in range(len(c["traits"])):
        d = copy.deepcopy(c)
        del d["traits"][i]
        add(d)
    if c["init"]:
        d = copy.deepcopy(c)
        d["init"] = None
        add(d)
        d = copy.deepcopy(c)
        d["init"] = dict(extra=0, tick=0, trail="", mut=False, pos=0.0, comma=False)
        d["init_attr"] = ""
        if d["init"] != c["init"] or c["init_attr"]:
            add(d)
    for k, v in (("attrs", ""), ("align", 0), ("twin", False), ("pub", False), ("place", "mod"), ("name", "Thing")):
        if c[k] != v:
            d = copy.deepcopy(c)
            d[k] = v
            add(d)
    for i, it in enumerate(c["items"]):
        for k, v in (("attrs", ""), ("ghost", False), ("pub", False)):
            if it.get(k):
                d = copy.deepcopy(c)
                d["items"][i][k] = v
                add(d)
        if it["k"] == "field" and it["name"] != f"f{i}":
            d = copy.deepcopy(c)
            d["items"][i]["name"] = f"f{i}"
            add(d)
    return out


def nontrivial(c):
    return size(c) >= 3


def labels(c):
    out = {f"field {f['kind']}" for f in parts(c)[0]} | {it["k"] for it in c["items"]}
    out |= {f"hook {h['name']}" for h in parts(c)[4]} | {f"{f['k']} under cfg" for f in c["items"] if f["k"] == "ghost"}
    if c["init"]:
        out.add("_init")
    out.add("pub class" if c["pub"] else "private class")
    if any(t["extended"] for t in c["traits"]):
        out.add("extends")
    if c.get("twin"):
        out.add("another class whose name differs in case")
    if any(key(f["name"]) != plain(f["name"]) for f in parts(c)[0]):
        out.add("field named metadata")
    return out
