"""P20: random `scene!` expressions, each with a program that walks the scene and compares it with what was written."""
import copy, random

CLASSES = r'''
use node_tree::prelude::*;

class! {
    pub declare A;
}
class! {
    pub declare B;
    pub let x: i64;
    pub let s: String;
    hk _init(x: i64, s: &str) { let s = s.to_string(); }
}
class! {
    pub declare F;
    pub let f: i64 = 1;
    pub export let e: String = "e0".to_string();
    pub unique let u: rt::NoClone = rt::NoClone(2);
    pub default let d: Vec<u8>;
    pub export default let ed: bool;
    pub let o: Option<u8> = None;
    pub let r#type: rt::Mode = rt::Mode::Off;
    pub unique let p: *mut u8 = std::ptr::null_mut();
    pub export let h: Vec<Option<String>> = Vec::new();
}
class! {
    pub declare G;
    pub let v: i64;
    pub let w: (i64, i64);
    hk _init(f: impl Fn(i64) -> i64, w: (i64, i64), _rest: Option<&str>) { let v = f(w.0); }
}
pub mod inner {
    use node_tree::prelude::*;
    class! {
        pub declare M;
        pub let m: u8;
        pub let k: f32 = 0.5;
        hk _init(m: u8) {}
    }
    pub mod deep {
        use node_tree::prelude::*;
        class! {
            pub declare A;
            pub let deep: bool = false;
        }
    }
}
pub use inner::M as Renamed;
pub type Alias = B;
'''

# Type -> (paths, fields: name -> (kind, type, initial expression or None, expressions))
FIELDS = {
    "k::A": {},
    "k::B": {"x": ("regular", "i64", None, ["4", "-4", "1 + 2", "7 as i64", "if true { 3 } else { 4 }", "{ 5 }", "-(3)", "!0", "2 * 3 - 1", '"abc".len() as i64', "match 1 { 1 => 8, _ => 9 }"]),
             "s": ("regular", "String", None, ['"q".to_string()', 'String::from("ü") + "v"', 'format!("{}", 1 + 1)', "String::new()"])},
    "k::F": {"f": ("regular", "i64", "1", ["4", "-4", "1 + 2", "7 as i64", "(1..4).sum::<i64>()", "i64::MAX - 1"]),
             "e": ("export", "String", '"e0".to_string()', ['"q".to_string()', '"a".to_owned() + "b"']),
             "u": ("unique", "rt::NoClone", "rt::NoClone(2)", ["rt::NoClone(7)", "rt::NoClone { 0: -1 }"]),
             "d": ("default", "Vec<u8>", "Vec::new()", ["vec![1, 2]", "vec![]", "[3].to_vec()", "(1..3).collect::<Vec<u8>>()"]),
             "ed": ("export", "bool", "false", ["true", "1 < 2", "!false", "true && false", "1 == 1 || false"]),
             "o": ("regular", "Option<u8>", "None", ["Some(3)", "None", "Some(3).filter(|v| *v > 3)"]),
             "r#type": ("regular", "rt::Mode", "rt::Mode::Off", ["rt::Mode::On(3)", "rt::Mode::Named { x: -1 }"]),
             "p": ("unique", "*mut u8", "std::ptr::null_mut()", ["8 as *mut u8", "std::ptr::null_mut()"]),
             "h": ("export", "Vec<Option<String>>", "Vec::new()", ['vec![Some("z".to_string()), None]', "Vec::new()"])},
    "k::G": {"v": ("regular", "i64", None, ["4", "- 4"]), "w": ("regular", "(i64, i64)", None, ["(1, 2)"])},
    "k::inner::M": {"m": ("regular", "u8", None, ["4", "255", "1 << 2"]), "k": ("regular", "f32", "0.5", ["1.5", "-1.5", "2.0 * 2.0"])},
    "k::inner::deep::A": {"deep": ("regular", "bool", "false", ["true", "!true"])},
}
PATHS = {
    "k::A": ["k::A", "A", "A", "A", "crate::k::A", "super::k::A", "self::k::A", "k :: A"],
    "k::B": ["k::B", "B", "B", "k::Alias", "Alias"],
    "k::F": ["F", "F", "k::F", "crate::k::F"],
    "k::G": ["G", "k::G"],
    "k::inner::M": ["k::inner::M", "inner::M", "Renamed", "M2"],
    "k::inner::deep::A": ["k::inner::deep::A", "inner::deep::A", "deep::A"],
}
NAMES = ["a", "Child", "x y", "ä€😀", "", "node", "A1", "Root/1", '\\"q\\"', "tab\\t\\u{e9}\\\\", "1", "name with a rather long text", "{}", "{x}", "%s", "scene"]
VARS = ["s0", "scene", "node", "root", "child", "children", "name", "params", "settings", "x", "base", "self_", "result", "NodeA", "r#type", "sc"]
VALUES = [("i64", "41"), ("i64", "-6"), ("&str", '"var"'), ("String", '"own".to_string()'), ("u8", "9"), ("bool", "true"), ("Vec<u8>", "vec![7]")]


def gen_args(r, t, g):
    """(argument expressions, values of the fields they set)"""
    if t == "k::B":
        x = g.expr("i64", FIELDS[t]["x"][3])
        s = r.choice(['"two"', '&format!("{}{}", 1, 2)', "&String::from(\"ö\")", '"a" as &str', '{ "b" }'] + [f"&{v}" for v in g.vars_of("String")] + g.vars_of("&str"))
        return [x["src"], s], {"x": x["want"], "s": f"({s}).to_string()"}
    if t == "k::G":
        f, want = r.choice([("|v| v + 1", 1), ("|v: i64| -> i64 { v * 2 }", None), ("move |v| { let q = v; q + 1 }", 1), ("i64::abs", None)])
        return [f, "(-3, 4)", r.choice(["None", 'Some("r")', "None::<&str>"])], {"v": {"|v: i64| -> i64 { v * 2 }": "-6", "i64::abs": "3"}.get(f, "-2"), "w": "(-3, 4)"}
    if t == "k::inner::M":
        x = g.expr("u8", FIELDS[t]["m"][3])
        return [x["src"]], {"m": x["want"]}
    return None, {}


class Gen:
    def __init__(self, r):
        self.r, self.tick, self.vars, self.scenes = r, 0, [], []

    def vars_of(self, ty):
        return [v for v, t in self.vars if t == ty]

    def expr(self, ty, pool):
        r = self.r
        mine = self.vars_of(ty)
        if mine and r.random() < 0.5:
            v = r.choice(mine)
            if ty in ("i64", "u8", "bool"):
                e = r.choice([v, v, f"{{ {v} }}"])
            else:
                e = f"{v}.clone()"
        else:
            e = r.choice(pool)
        if r.random() < 0.25:
            self.tick += 1
            return dict(src=f"rt::tick({self.tick}, {e})", want=e)
        return dict(src=e, want=e)


def gen_node(r, g, budget, depth, links=True):
    if links and g.scenes and r.random() < (0.3 if depth else 0.1):
        return dict(link=r.choice(g.scenes))
    t = r.choice(["k::A", "k::A", "k::B", "k::F", "k::F", "k::G", "k::inner::M", "k::inner::deep::A"])
    args, values = gen_args(r, t, g)
    n = dict(t=t, path=r.choice(PATHS[t]), args=args, trail=r.random() < 0.2, values=values, name=None, settings=[], braces=False, children=[], brackets=False,
             tail=r.random() < 0.4, empty_parens=args is None and r.random() < 0.25)
    if r.random() < 0.45:
        n["name"] = r.choice(NAMES)
        n["raw"] = "\\" not in n["name"] and r.random() < 0.15
    if FIELDS[t] and r.random() < 0.5:
        keys = [k for k in FIELDS[t] if r.random() < 0.4]
        if keys and r.random() < 0.2:
            keys += [r.choice(keys) for _ in range(r.randint(1, 2))]  # the last one counts
        r.shuffle(keys)
        for k in keys:
            e = g.expr(FIELDS[t][k][1], FIELDS[t][k][3])
            n["settings"].append([k, e["src"], e["want"]])
    n["braces"] = bool(n["settings"]) or r.random() < 0.1
    wide = r.random() < 0.06
    while budget[0] > 0 and depth < 6 and r.random() < (0.95 if wide else 0.6 if depth < 3 else 0.35):
        budget[0] -= 1
        n["children"].append(gen_node(r, g, budget, depth + 1))
    n["brackets"] = bool(n["children"]) or r.random() < 0.12
    return n


def generate(r, big=False):
    g = Gen(r)
    names = VARS[:]
    r.shuffle(names)
    c = dict(vars=[], scenes=[], checks=[])
    for _ in range(r.choice([0, 1, 2, 3])):
        ty, e = r.choice(VALUES)
        v = names.pop()
        c["vars"].append([v, ty, e])
        g.vars.append((v, ty))
    for _ in range(r.choice([1, 1, 2, 3, 4 if big else 2])):
        budget = [r.choice([0, 2, 4, 8, 20 if big or r.random() < 0.3 else 8])]
        v = names.pop()
        root = gen_node(r, g, budget, 0)
        c["scenes"].append(dict(var=v, root=root, delim=r.choice(["{}", "{}", "{}", "()", "[]"]), owner=[r.randrange(50) for _ in range(r.choice([0, 0, 0, 1]))],
                                by=r.choice(["let", "let", "let", "call", "block", "ref", "closure"]), space=r.choice([" ", "\n        "])))
        g.scenes.append(v)
    return c


# ---------------------------------------------------------------- rendering

def lit(n):
    return f'r#"{n["name"]}"#' if n.get("raw") else f'"{n["name"]}"'


def source(n, sp):
    if "link" in n:
        return f"${n['link']}"
    s = n["path"]
    if n["args"] is not None:
        s += "(" + ", ".join(n["args"]) + ("," if n["trail"] else "") + ")"
    elif n["empty_parens"]:
        s += "()"
    if n["name"] is not None:
        s += ": " + lit(n)
    kids = ("," + sp).join(source(k, sp) for k in n["children"]) + ("," if n["children"] and n["tail"] else "")
    if n["braces"]:
        inner = ("," + sp).join(f"{k}: {e}" for k, e, _ in n["settings"])
        if n["brackets"]:
            inner += ("," + sp if inner else "") + f"[{sp}{kids}{sp}]"
        elif n["settings"] and n["trail"]:
            inner += ","
        s += f" {{{sp}{inner}{sp}}}"
    elif n["brackets"]:
        s += f" [{sp}{kids}{sp}]"
    return s


def expected(n, scenes, depth, cloned=False, root=True):
    """The nodes in order: (depth, owner, type, name expression, field -> (expression or None if void))"""
    if "link" in n:
        out = []
        for i, (d, owner, t, name, fields) in enumerate(scenes[n["link"]]):
            f = {k: (None if FIELDS[t][k][0] == "unique" else v) for k, v in fields.items()}
            out.append((d + depth, owner if (i or root) else False, t, name, f))
        return out
    t = n["t"]
    f = {k: v[2] for k, v in FIELDS[t].items()}
    f.update(n["values"])
    for k, _, want in n["settings"]:
        f[k] = want
    name = lit(n) if n["name"] is not None else '"' + t.split("::")[-1] + '"'
    out = [(depth, root, t, name, f)]
    for k in n["children"]:
        out += expected(k, scenes, depth + 1, root=False)
    return out


def ticks(n):
    import re
    if "link" in n:
        return []
    out = [int(x) for s in (n["args"] or []) + [e for _, e, _ in n["settings"]] for x in re.findall(r"rt::tick\((\d+),", s)]
    for k in n["children"]:
        out += ticks(k)
    return sorted(out)


def render(c):
    b = ["#[allow(unused_imports)] use node_tree::prelude::*;", "#[allow(unused_imports)] use crate::k::{self, *, inner::deep, inner::M as M2};", "pub fn run() {"]
    for v, t, e in c["vars"]:
        b.append(f"    let {v}: {t} = {e};")
    scenes = {}
    for i, s in enumerate(c["scenes"]):
        o, cl = s["delim"]
        sp = s["space"]
        m = f"scene! {o}{sp}{source(s['root'], sp)}{sp}{cl}"
        v = s["var"]
        b.append("    rt::ticks();")
        b.append({"let": f"    let {v}: NodeScene = {m};", "call": f"    let {v} = rt::id::<NodeScene>({m});", "block": f"    let {v} = {{ let y = {m}; y }};",
                  "ref": f"    let {v} = &{m};", "closure": f"    let {v} = (|| {m})();"}[s["by"]])
        b.append(f"    rt::eq(\"evaluated expressions of scene {i}\", &rt::ticks(), &Vec::<u32>::from({ticks(s['root'])}));")
        want = expected(s["root"], scenes, 0)
        if s["owner"] and s["by"] != "ref":
            # A node that is appended as an owner stays one where the scene is linked.
            b.append(f"    let mut {v} = {v}; {v}.append_as_owner(NodeScene::new(k::A::new()));")
            want = want + [(1, True, "k::A", '"A"', {})]
        scenes[v] = want
    # Every scene is looked at in the end, so after it was linked, too.
    for i, s in enumerate(c["scenes"]):
        want = scenes[s["var"]]
        b.append(f"    {{ let w = rt::walk(&{s['var']}); rt::eq(\"number of nodes of scene {i}\", &w.len(), &{len(want)}usize);")
        for j, (d, owner, t, name, fields) in enumerate(want):
            at = f"scene {i} node {j}"
            b.append(f"      {{ let n: &{t} = w[{j}].is(\"{at}\"); rt::eq(\"{at}: name\", n.name(), {name}); rt::eq(\"{at}: depth\", &w[{j}].depth, &{d}usize); "
                     f"rt::eq(\"{at}: owner\", &w[{j}].owner, &{'true' if owner else 'false'});")
            for k, v in fields.items():
                ty = FIELDS[t][k][1]
                f = k[2:] if k.startswith("r#") else k
                if v is None:
                    b.append(f"        rt::yes(\"{at}: unique field {f} of a linked node is not void\", n.{k}.is_void());")
                else:
                    b.append(f"        {{ let v: {ty} = {v}; rt::same(\"{at}: {f}\", &*n.{k}, &v); }}")
            b.append("      }")
        b.append("    }")
    b.append("}")
    return "\n".join(b) + "\n"


# ---------------------------------------------------------------- shrinking

def nodes(n):
    yield n
    for k in n.get("children", []):
        yield from nodes(k)


def size(c):
    return len(c["vars"]) + sum(1 + len(n.get("settings", [])) for s in c["scenes"] for n in nodes(s["root"]))


def smaller(c):
    out = []

    def ok(d):
        import re
        have = {v for v, _, _ in d["vars"]}
        for s in d["scenes"]:
            for n in nodes(s["root"]):
                if "link" in n and n["link"] not in have:
                    return False
            have.add(s["var"])
        text = render(d)
        return all(v in have or not re.search(r"(?<![\w#\"])" + re.escape(v) + r"(?![\w(:!])", text) for v, _, _ in c["vars"])

    for i in range(len(c["scenes"])):
        d = copy.deepcopy(c)
        del d["scenes"][i]
        if d["scenes"]:
            out.append(d)
    for i in range(len(c["vars"])):
        d = copy.deepcopy(c)
        del d["vars"][i]
        out.append(d)
    for i, s in enumerate(c["scenes"]):
        for k, v in (("delim", "{}"), ("owner", []), ("by", "let"), ("space", " ")):
            if s[k] != v:
                d = copy.deepcopy(c)
                d["scenes"][i][k] = v
                out.append(d)
        for j, n in enumerate(nodes(s["root"])):
            if "link" in n:
                continue

            def edit(f):
                d = copy.deepcopy(c)
                f(list(nodes(d["scenes"][i]["root"]))[j])
                out.append(d)
            if j == 0:
                for x in range(len(n["children"])):
                    d = copy.deepcopy(c)
                    d["scenes"][i]["root"] = d["scenes"][i]["root"]["children"][x]
                    out.append(d)
            for x in range(len(n["children"])):
                edit(lambda m: m["children"].pop(x))
            for x in range(len(n["settings"])):
                edit(lambda m: m["settings"].pop(x))
            if n["name"] is not None:
                edit(lambda m: m.update(name=None))
            if not n["children"] and n["brackets"]:
                edit(lambda m: m.update(brackets=False))
            if not n["settings"] and n["braces"]:
                edit(lambda m: m.update(braces=False))
            if n["tail"] or n["trail"] or n["empty_parens"]:
                edit(lambda m: m.update(tail=False, trail=False, empty_parens=False))
    return [d for d in out if ok(d)]


def nontrivial(c):
    return sum(1 for s in c["scenes"] for _ in nodes(s["root"])) >= 2


def labels(c):
    out = set()
    for s in c["scenes"]:
        out.add("delimiter " + s["delim"])
        for n in nodes(s["root"]):
            if "link" in n:
                out.add("link")
                continue
            out |= {x for x, y in (("arguments", n["args"]), ("name", n["name"] is not None), ("settings", n["settings"]), ("children", n["children"]),
                                   ("settings and children", n["settings"] and n["children"]), ("empty braces", n["braces"] and not n["settings"]),
                                   ("empty brackets", n["brackets"] and not n["children"]), ("path", "::" in n["path"])) if y}
    return out
