"""P25: random calls of debug!, info!, warn!, error! and nodepath!, compared with format! of the same tokens."""
import copy, random

# Type -> (expressions, specs that its values admit)
VALUES = {
    "int": (["7", "-3", "1 + 2 * 3", "{ 4 }", "if true { 5i64 } else { 6 }", "i64::MAX", "(1..4).sum::<i64>()", "rt::id::<i64>(9)", "match 3 { 3 => 8, _ => 0 }",
             "[1, 2, 3].len()", "(|a: i64, b: i64| a - b)(5, 7)", "loop { break 3; }"],
            ["", ":?", ":5", ":<5", ":>8", ":^7", ":*^9", ":+", ":05", ":x", ":#x", ":#010b", ":e", ":#?", ":-<6", ":o", ":W", ":>W", ":0W"]),
    "str": (['"abc"', '"ü€😀"', 'String::from("a/b")', '"a".to_string() + "b"', '"q\\"q"', 'r"raw\\n"', 'format!("{}-{{{}}}", 1, "x,y")', '"{} {x}"', 'stringify!(a + b)',
             '"a,b".split(\',\').collect::<Vec<_>>().join("+")', '""', '["p", "q"].concat()', '&*"ref".to_string()'],
            ["", ":?", ":8", ":>8", ":^9", ":.2", ":*<6.3", ":>W", ":.P", ":W.P", ":>W.P", ":.1", ":#?"]),
    "float": (["1.5", "-0.25", "2.0 / 3.0", "f64::INFINITY", "1e10", "f64::NAN"], ["", ":.2", ":8.3", ":+.1", ":e", ":?", ":08.2", ":W.P", ":.P"]),
    "bool": (["true", "1 < 2", "!true", "matches!(Some(1), Some(_))"], ["", ":?", ":>7", ":W"]),
    "char": (["'x'", "'\\''", "'€'", "','"], ["", ":?", ":>3", ":^W"]),
    "dbg": (["vec![1, 2]", "Some((1, \"z\"))", "rt::Plain { a: 4, b: \"p\".into() }", "[Some('a'), None]", "std::collections::BTreeMap::from([(1, 2)])", "()", "rt::Mode::Named { x: 1 }"],
            [":?", ":?", ":#?", ":6?", ":04?"]),
}
TEXTS = ["a", " ", "x: ", "{{{{", "}}}}", "{{", "}}", "{{}}", "ü€", "\\n", "\\\"", "\\t", "%s", "$x", "\\\\", "/", "..", "'", "1", "\\u{1F600}", ", ", "{{x}}", "#"]
RAW = ["a", " ", "x: ", "{{{{", "}}}}", "{{", "}}", "{{}}", "ü€", "\\n", "\"", "%s", "$x", "/", "..", "'", "1", ", "]
NAMES = "x y value args log msg self_ name tp str fmt r#type größe post width".split()
INLINE = {"v_int": ("int", "-12i64"), "v_str": ("str", '"in/line"'), "v_float": ("float", "0.125f64"), "args": ("dbg", "vec![1u8]"), "log": ("str", '"a log"'), "n": ("int", "3i64"), "str": ("str", '"s"')}
LEVELS = {"debug": "DEBUG", "info": "INFO", "warn": "WARN", "error": "PANIC!"}


def call(r):
    macro = r.choice(["debug", "info", "warn", "error", "nodepath", "debug", "info", "warn"])
    npos, named = r.choice([0, 0, 1, 1, 2, 3, 4]), r.choice([0, 0, 0, 1, 2])
    args = []
    names = NAMES[:]
    r.shuffle(names)

    def expr(kind):
        return dict(kind=kind, e=r.choice(VALUES[kind][0]), tick=r.random() < 0.6, ref=r.random() < 0.2)
    for i in range(npos):
        args.append(dict(expr(r.choice(list(VALUES))), name=None))
    for i in range(named):
        args.append(dict(expr(r.choice(list(VALUES))), name=names.pop()))
    pieces, uses = [], []
    raw = r.random() < 0.2
    # Every argument is used by a placeholder, some are used twice, in any order.
    implicit = r.random() < 0.5
    order = list(range(npos))
    if not implicit:
        r.shuffle(order)
    for i in order:
        uses.append(("" if implicit else str(i), args[i]["kind"]))
    for a in args[npos:]:
        uses.insert(r.randrange(len(uses) + 1), (a["name"], a["kind"]))
    for i, a in enumerate(args):
        if r.random() < 0.2:
            uses.append((a["name"] or str(i), a["kind"]))
    for k in r.sample(sorted(INLINE), r.choice([0, 0, 1, 2])):
        if all(a["name"] != k for a in args):
            uses.insert(r.randrange(len(uses) + 1), (k, INLINE[k][0]))
    extra = {}
    for what, kind in uses:
        for _ in range(r.choice([0, 1, 1, 2])):
            pieces.append(r.choice(RAW if raw else TEXTS))
        spec = r.choice(VALUES[kind][1])
        for letter, name in (("W", "width"), ("P", "prec")):
            if letter in spec:
                form = r.choice(["named", "inline"])
                key = f"{name}{'' if form == 'named' else '_v'}"
                if any(a["name"] == key for a in args):
                    key = f"{name}_v"
                extra[key] = form if key.endswith("_v") is False else "inline"
                spec = spec.replace(letter, key + "$")
        pieces.append("{" + (what[2:] if what.startswith("r#") else what) + spec + "}")
    for _ in range(r.choice([0, 1, 1, 2])):
        pieces.append(r.choice(RAW if raw else TEXTS))
    if r.random() < 0.05:
        # A message of nothing.
        args, extra = ([dict(kind="str", e='""', tick=r.random() < 0.5, ref=False, name=None)], {}) if r.random() < 0.7 else ([], {})
        pieces = ["{}"] if args else []
    for key, form in sorted(extra.items()):
        if form == "named":
            args.append(dict(kind="int", e="6usize", tick=False, ref=False, name=key))
    return dict(macro=macro, pieces=pieces, raw=raw, args=args, comma=r.random() < 0.25 and bool(args), delim=r.choice(["()", "()", "{}", "[]"]),
                on=r.choice(["self", "self", "self", "me", "tp", "named"]), verb=r.randrange(4))


def generate(r, big=False):
    return dict(calls=[call(r) for _ in range(r.choice([1, 2, 3, 5, 8]))])


# ---------------------------------------------------------------- rendering

def expression(a, tick):
    e = f"rt::tick({tick}, {a['e']})" if a["tick"] else a["e"]
    return ("&" if a["ref"] else "") + (f"({e})" if a["ref"] else e)


def tokens(x):
    text = "".join(x["pieces"])
    lit = f'r#"{text}"#' if x["raw"] else f'"{text}"'
    out = [lit]
    for i, a in enumerate(x["args"]):
        out.append((f"{a['name']} = " if a["name"] else "") + expression(a, i + 1))
    return ", ".join(out) + ("," if x["comma"] else "")


def source(x):
    l, r = x["delim"]
    m = x["macro"]
    if m == "nodepath":
        return f"nodepath!{l}{tokens(x)}{r}"
    return f"{m}!{l}{'tp' if x['on'] == 'tp' else 'me' if x['on'] == 'me' else 'self'}, {tokens(x)}{r}"


def declaration(c):
    return "\n".join(source(x) + ";" for x in c["calls"])


VERBS = ["All", "NoDebug", "OnlyIssues", "OnlyPanics"]


def shown(x):
    return {"debug": 0, "info": 1, "warn": 2, "error": 3}[x["macro"]] >= x["verb"]


def render(c):
    fns, runs = [], []
    lets = " ".join(f"let {k} = {v[1]};" for k, v in INLINE.items()) + " let width_v = 7usize; let prec_v = 2usize;"
    for i, x in enumerate(c["calls"]):
        want = f"{{ {lets} format!({tokens(x)}) }}"
        ticks = [j + 1 for j, a in enumerate(x["args"]) if a["tick"]]
        pre = "let me = &*self;" if x["on"] == "me" else "let tp: Tp<Kid> = self.get_child(0).unwrap();" if x["on"] == "tp" else ""
        stmt = source(x)
        if x["macro"] == "nodepath":
            fns.append(f"fn call{i}(&mut self) {{ let want: String = {want}; rt::ticks(); let got: NodePath = {{ {lets} {stmt} }}; "
                       f"rt::eq(\"evaluated arguments\", &rt::ticks(), &Vec::<u32>::from({ticks})); "
                       f"rt::yes(\"{i}: the path\", got == NodePath::from_str(&want)); rt::eq(\"{i}: the path's text\", &got.to_string(), &NodePath::from_str(&want).to_string()); }}")
        else:
            fns.append(f"fn call{i}(&mut self) -> String {{ let want: String = {want}; rt::ticks(); {{ {lets} {pre} {stmt}; }} "
                       f"rt::eq(\"evaluated arguments\", &rt::ticks(), &Vec::<u32>::from({ticks})); want }}")
        who = {"tp": "[N/Kid]", "named": "A name"}.get(x["on"], "[N]")
        run = (f"    {{ let mut tree = TreeSimple::new({{ let mut s = NodeScene::new(N::new()); s.append(NodeScene::new(Kid::new())); s }}, LoggerVerbosity::{VERBS[x['verb']]});\n"
               f"      let n: *mut N = {{ let rid = tree.root().rid(); tree.get_node_mut(rid).unwrap().as_any_mut().downcast_mut().unwrap() }}; let n: &mut N = unsafe {{ &mut *n }};\n")
        if x["on"] == "named" and x["macro"] != "nodepath":
            run += "      rt::yes(\"register\", n.register_as_singleton(\"A name\".to_string()));\n"
        if x["macro"] == "nodepath":
            run += f"      n.call{i}(); }}"
        else:
            run += f"      let before = tree.get_log().len(); let want = n.call{i}(); let log = tree.get_log()[before..].to_string();\n"
            if not shown(x):
                run += f"      rt::eq(\"{i}: the log\", &log, \"\"); }}"
            else:
                cut = "log.starts_with('<') && log.find(\" UTC> | \").is_some_and(|at| log[at + 8..].starts_with(&want))" if x["macro"] == "error" else \
                    "log.starts_with('<') && log.find(\" UTC> | \").is_some_and(|at| log[at + 8..] == want)"
                run += (f"      let want = format!(\"{{}} | {LEVELS[x['macro']]} | {{}}\\n\", \"{who}\", want); "
                        f"if !({cut}) {{ panic!(\"{i}: the log is {{log:?}}, expected {{want:?}} after the time\"); }}\n")
                run += f"      rt::eq(\"{i}: the tree has terminated\", &tree.process().has_terminated(), &{'true' if x['macro'] == 'error' else 'false'}); }}"
        runs.append(run)
    return ("use node_tree::prelude::*;\nuse node_tree::trees::TreeSimple;\nclass! { declare Kid; }\nclass! {\n    declare N;\n    "
            + "\n    ".join(fns) + "\n}\npub fn run() {\n" + "\n".join(runs) + "\n}\n")


# ---------------------------------------------------------------- shrinking

def size(c):
    return len(c["calls"]) + sum(len(x["pieces"]) + len(x["args"]) for x in c["calls"])


def smaller(c):
    out = []
    for i in range(len(c["calls"])):
        if len(c["calls"]) > 1:
            d = copy.deepcopy(c)
            d["calls"] = [d["calls"][i]]
            out.append(d)
    for i, x in enumerate(c["calls"]):
        for j, p in enumerate(x["pieces"]):
            if not (p.startswith("{") and not p.startswith("{{")):
                d = copy.deepcopy(c)
                del d["calls"][i]["pieces"][j]
                out.append(d)
        for j, a in enumerate(x["args"]):
            for k in ("tick", "ref"):
                if a[k]:
                    d = copy.deepcopy(c)
                    d["calls"][i]["args"][j][k] = False
                    out.append(d)
        for k, v in (("comma", False), ("raw", False), ("delim", "()"), ("on", "self"), ("verb", 0)):
            if x[k] != v and not (k == "raw" and any('"' in p or "\\" in p for p in x["pieces"])):
                d = copy.deepcopy(c)
                d["calls"][i][k] = v
                out.append(d)
    return out


def nontrivial(c):
    return any(p.startswith("{") and not p.startswith("{{") for x in c["calls"] for p in x["pieces"])


def labels(c):
    out = {x["macro"] for x in c["calls"]}
    for x in c["calls"]:
        out |= {"named argument" for a in x["args"] if a["name"]} | {"positional argument" for a in x["args"] if not a["name"]}
        if x["comma"]:
            out.add("trailing comma")
    return out
