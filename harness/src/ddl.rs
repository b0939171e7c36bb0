//! Programs of the interpreter: generated, written in either syntax, parsed, lowered, and optionally optimized.
//! The JSON form is what the TLA+ module DDInterp evaluates.
use crate::common::*;
use interactive::ir::Value as V;
use interactive::parse::{applicative, pipe};
use interactive::{lower, scope_ir};
use serde_json::{json, Value};

// ---------------------------------------------------------------- writing programs

pub fn s(v: &Value) -> &str { v.as_str().unwrap() }
pub fn n(v: &Value) -> i64 { v.as_i64().unwrap() }
pub fn arr(v: &Value) -> &Vec<Value> { v.as_array().unwrap() }

/// Writes programs in one of two syntaxes, varying what may vary.
pub struct Printer { pipe: bool, rng: Rng, cons: Vec<(i64, usize)>, binders: Vec<Option<usize>> }
const FIELDS: &[&str] = &["a", "b", "c", "d", "e"];

/// A term moved beneath `by` further binders.
pub fn shift(t: &Value, by: i64, cut: i64) -> Value {
    let sub = |j: usize| shift(&t[j], by, cut);
    match s(&t[0]) {
        "bound" => if n(&t[1]) >= cut { json!(["bound", n(&t[1]) + by]) } else { t.clone() },
        "var" | "int" | "gap" => t.clone(),
        "tuple" | "list" => json!([t[0], arr(&t[1]).iter().map(|x| shift(x, by, cut)).collect::<Vec<_>>()]),
        "proj" => json!(["proj", sub(1), t[2]]),
        "istag" => json!(["istag", t[1], sub(2)]),
        "fold" => json!(["fold", sub(1), sub(2), shift(&t[3], by, cut + 2)]),
        "case" => json!(["case", sub(1), arr(&t[2]).iter().map(|x| shift(x, by, cut + 1)).collect::<Vec<_>>(), arr(&t[3]).iter().map(|x| shift(x, by, cut)).collect::<Vec<_>>(), t[4]]),
        op => { let mut v = vec![json!(op)]; for x in &arr(t)[1..] { v.push(shift(x, by, cut)); } json!(v) }
    }
}

impl Printer {
    pub fn new(pipe: bool, seed: u64) -> Self { Printer { pipe, rng: Rng::new(seed), cons: vec![], binders: vec![] } }
    fn args(&mut self, ts: &[Value]) -> String { ts.iter().map(|t| self.term(t, 0)).collect::<Vec<_>>().join(", ") }
    /// A term in a position that accepts operators binding at least this tightly.
    fn term(&mut self, t: &Value, min: u8) -> String {
        let (text, level) = self.bare(t);
        if level < min || (level < 6 && self.rng.chance(1, 8)) { format!("({text})") } else { text }
    }
    fn binary(&mut self, t: &Value, op: &str, level: u8, left: u8) -> (String, u8) {
        let l = self.term(&t[1], left);
        let r = self.term(&t[2], level + 1);
        (format!("{l} {op} {r}"), level)
    }
    fn bare(&mut self, t: &Value) -> (String, u8) {
        match s(&t[0]) {
            "var" => (format!("${}", t[1]), 6),
            "bound" => (format!("^{}", t[1]), 6),
            "int" => if n(&t[1]) < 0 { (format!("- {}", -n(&t[1])), 5) } else { (format!("{}", t[1]), 6) },
            "tuple" | "list" => (format!("{}({})", s(&t[0]), self.args(arr(&t[1]))), 6),
            "proj" => {
                // Fields of what a case binds have names.
                if t[1][0] == "bound" && self.pipe {
                    let (k, i) = (n(&t[1][1]) as usize, n(&t[2]) as usize);
                    let len = self.binders.len();
                    if k < len && self.binders[len - 1 - k].is_some_and(|a| i < a) && (len - k..len).all(|j| self.binders[j].is_none_or(|a| i >= a)) && self.rng.chance(2, 3) {
                        return (FIELDS[i].to_string(), 6);
                    }
                }
                if self.rng.chance(1, 5) { let x = self.term(&t[1], 0); (format!("proj({x}, {})", t[2]), 6) }
                else { let x = self.term(&t[1], 6); (format!("{x}[{}]", t[2]), 6) }
            }
            "inject" => {
                if self.pipe && t[1][0] == "int" && t[2][0] == "tuple" && self.rng.chance(1, 2) {
                    let c = (n(&t[1][1]), arr(&t[2][1]).len());
                    if !self.cons.contains(&c) { self.cons.push(c); }
                    (format!("C{}_{}({})", c.0, c.1, self.args(arr(&t[2][1]))), 6)
                } else {
                    let (a, b) = (self.term(&t[1], 0), self.term(&t[2], 0));
                    (format!("{}({a}, {b})", if self.rng.chance(1, 2) { "inject" } else { "variant" }), 6)
                }
            }
            "case" => {
                // ["case", scrutinee, arms, default, arities]
                let sc = self.term(&t[1], 0);
                let arities: Vec<usize> = arr(&t[4]).iter().map(|x| n(x) as usize).collect();
                if self.pipe {
                    let mut arms = Vec::new();
                    for (tag, a) in arr(&t[2]).iter().enumerate() {
                        if a[0] == "gap" { continue; }
                        let c = (tag as i64, arities[tag]);
                        if !self.cons.contains(&c) { self.cons.push(c); }
                        self.binders.push(Some(arities[tag]));
                        let body = self.term(a, 0);
                        self.binders.pop();
                        arms.push(format!("C{}_{}({}) => {body}", c.0, c.1, FIELDS[..arities[tag]].join(", ")));
                    }
                    self.rng.shuffle(&mut arms);
                    if let Some(d) = arr(&t[3]).first() { let d = self.term(d, 0); let at = self.rng.below(arms.len() as u64 + 1) as usize; arms.insert(at, format!("_ => {d}")); }
                    (format!("case {sc} {{ {} }}", arms.join(", ")), 6)
                } else {
                    let d = arr(&t[3]).first().map(|d| shift(d, 1, 0));
                    let mut arms = Vec::new();
                    for tag in 0..arities.len() {
                        let a = match arr(&t[2]).get(tag) { Some(a) if a[0] != "gap" => a.clone(), _ => d.clone().unwrap() };
                        self.binders.push(Some(0));
                        arms.push(self.term(&a, 0));
                        self.binders.pop();
                    }
                    (format!("case({sc}, {})", arms.join(", ")), 6)
                }
            }
            "fold" => {
                let (l, i) = (self.term(&t[1], 0), self.term(&t[2], 0));
                self.binders.push(None); self.binders.push(None);
                let st = self.term(&t[3], 0);
                self.binders.pop(); self.binders.pop();
                (format!("fold({l}, {i}, {st})"), 6)
            }
            "if" => (format!("if({})", self.args(&arr(t)[1..])), 6),
            "neg" => { let x = self.term(&t[1], 5); (format!("- {x}"), 5) }
            "not" => { let x = self.term(&t[1], 0); (format!("not({x})"), 6) }
            "len" => { let x = self.term(&t[1], 0); (format!("len({x})"), 6) }
            "istag" => { let x = self.term(&t[2], 0); (format!("istag({}, {x})", t[1]), 6) }
            "or" => (format!("or({})", self.args(&arr(t)[1..])), 6),
            "and" => self.binary(t, "&&", 1, 1),
            "+" | "-" => self.binary(t, s(&t[0]), 3, 3),
            "*" => self.binary(t, "*", 4, 4),
            op => self.binary(t, op, 2, 3),
        }
    }
    fn fields(&mut self, t: &Value) -> String {
        arr(&t[1]).iter().map(|f| {
            if f[0] == "spread" { return format!("${}", f[1][1]); }
            let x = self.term(f, 0);
            // A whole row alone, or first in a longer term, would be taken to be spliced.
            let b = x.as_bytes();
            if b[0] == b'$' && !x[1..].trim_start_matches(|c: char| c.is_ascii_digit()).starts_with('[') { format!("({x})") } else { x }
        }).collect::<Vec<_>>().join(", ")
    }
    fn projection(&mut self, p: &Value) -> String {
        let k = self.fields(&p[0]);
        let v = self.fields(&p[1]);
        if v.is_empty() && self.rng.chance(1, 2) { format!("({k})") } else { format!("({k} ; {v})") }
    }
    fn atom(&mut self, e: &Value) -> Option<String> {
        Some(match s(&e[0]) {
            "input" => format!("{} {}", if self.pipe { "input" } else { "INPUT" }, e[1]),
            "import" => format!("{} \"{}\"", if self.pipe { "import" } else { "IMPORT" }, s(&e[1])),
            "name" => s(&e[1]).to_string(),
            "qual" => format!("{}::{}", s(&e[1]), s(&e[2])),
            _ => return None,
        })
    }
    pub fn expr(&mut self, e: &Value) -> String { if self.pipe { self.pipes(e) } else { self.calls(e) } }
    fn in_atom(&mut self, e: &Value) -> String { match self.atom(e) { Some(a) => a, None => format!("({})", self.pipes(e)) } }
    /// The left end of a pipe: an atom, a concatenation of atoms, or another pipe.
    fn pipes(&mut self, e: &Value) -> String {
        if let Some(a) = self.atom(e) { return if self.rng.chance(1, 10) { format!("({a})") } else { a }; }
        if e[0] == "concat" {
            let mut out = String::new();
            for (j, x) in arr(&e[1]).iter().enumerate() {
                if j > 0 && x[0] == "neg" && self.rng.chance(2, 3) { let a = self.in_atom(&x[1]); out += &format!(" - {a}"); }
                else { let a = self.in_atom(x); out += &if j > 0 { format!(" + {a}") } else { a }; }
            }
            return out;
        }
        let left = if self.rng.chance(1, 10) { format!("({})", self.pipes(&e[1])) } else { self.pipes(&e[1]) };
        let op = match s(&e[0]) {
            "map" => { let p = self.projection(&e[2]); format!("{}{p}", if self.rng.chance(1, 2) { "key" } else { "map" }) }
            "filter" => { let t = self.term(&e[2], 0); format!("filter({t})") }
            "flatmap" => { let t = self.term(&e[2], 0); format!("flatmap({t})") }
            "enter_at" => { let t = self.term(&e[2], 0); format!("enter_at({t})") }
            "neg" => "negate".into(), "arrange" => "arrange".into(), "lift_iter" => "lift_iter".into(),
            "inspect" => "inspect(probe)".into(),
            "join" => {
                // The other side is an atom and what it is piped through.
                let r = if e[2][0] == "concat" { format!("({})", self.pipes(&e[2])) } else { self.no_concat(&e[2]) };
                let p = self.projection(&e[3]); format!("join({r}, {p})")
            }
            "red" => s(&e[2]).into(),
            x => panic!("op {x}"),
        };
        format!("{left} | {op}")
    }
    fn no_concat(&mut self, e: &Value) -> String {
        let mut x = e;
        while self.atom(x).is_none() { if x[0] == "concat" { return format!("({})", self.pipes(e)); } x = &x[1]; }
        self.pipes(e)
    }
    fn calls(&mut self, e: &Value) -> String {
        if let Some(a) = self.atom(e) { return a; }
        if e[0] == "concat" { return format!("CONCAT({})", arr(&e[1]).iter().map(|x| self.calls(x)).collect::<Vec<_>>().join(", ")); }
        let x = self.calls(&e[1]);
        match s(&e[0]) {
            "map" => { let p = self.projection(&e[2]); format!("MAP({x}, {p})") }
            "filter" => { let t = self.term(&e[2], 0); format!("FILTER({x}, {t})") }
            "flatmap" => { let t = self.term(&e[2], 0); format!("FLATMAP({x}, {t})") }
            "enter_at" => { let t = self.term(&e[2], 0); format!("ENTER_AT({x}, {t})") }
            "neg" => format!("NEGATE({x})"), "arrange" => format!("ARRANGE({x})"), "lift_iter" => format!("LIFT_ITER({x})"),
            "inspect" => format!("INSPECT({x}, probe)"),
            "join" => { let r = self.calls(&e[2]); let p = self.projection(&e[3]); format!("JOIN({x}, {r}, {p})") }
            "red" => format!("REDUCE({x}, {})", s(&e[2]).to_uppercase()),
            x => panic!("op {x}"),
        }
    }
    fn stmts(&mut self, body: &[Value], indent: usize) -> String {
        let mut out = Vec::new();
        for st in body {
            let pad = " ".repeat(indent);
            let mut text = match s(&st[0]) {
                "let" | "var" => { let e = self.expr(&st[2]); format!("{pad}{} {} = {e};\n", s(&st[0]), s(&st[1])) }
                "export" => { let e = self.expr(&st[2]); format!("{pad}export \"{}\" = {e};\n", s(&st[1])) }
                _ => { let b = self.stmts(arr(&st[2]), indent + 4); format!("{pad}{}: {}{{\n{b}{pad}}}\n", s(&st[1]), if !self.pipe && self.rng.chance(1, 2) { "scope " } else { "" }) }
            };
            if self.rng.chance(1, 8) { text = format!("{pad}-- a remark; with | let x = (\n{text}"); }
            out.push(text);
        }
        self.rng.shuffle(&mut out);
        out.concat()
    }
    pub fn program(&mut self, prog: &Value) -> String {
        let body = self.stmts(arr(prog), 0);
        let cons: String = self.cons.iter().map(|(t, a)| format!("con C{t}_{a}({a}) = {t};\n")).collect();
        cons + &body
    }
}

/// The tree of scopes a program becomes, by way of its text.
pub fn compile(prog: &Value, mode: &str) -> scope_ir::Program {
    let (pipe_syntax, optimized, seed) = (mode.starts_with('p'), &mode[1..2] == "o", mode[2..].parse::<u64>().unwrap());
    let text = Printer::new(pipe_syntax, seed).program(prog);
    if std::env::var("DDV_LOUD").is_ok() { eprintln!("{text}"); }
    let stmts = if pipe_syntax { pipe::parse(&text) } else { applicative::parse(&text) };
    let mut program = lower::lower_tree(stmts);
    if optimized { program.optimize(); }
    program
}

pub fn vj(v: &V) -> Value {
    match v {
        V::Int(n) => json!(["i", n]),
        V::Tuple(xs) => { let mut o = vec![json!("t")]; o.extend(xs.iter().map(vj)); json!(o) }
        V::List(xs) => { let mut o = vec![json!("l")]; o.extend(xs.iter().map(vj)); json!(o) }
        V::Variant(t, x) => json!(["v", t, vj(x)]),
    }
}

// ---------------------------------------------------------------- generating programs

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Int, Tup(Vec<Ty>), List(Box<Ty>), Sum(Vec<Vec<Ty>>) }
use Ty::*;
fn unit() -> Ty { Tup(vec![]) }
fn ints(n: usize) -> Ty { Tup(vec![Int; n]) }
fn flat(t: &Ty) -> bool { match t { Int => true, Tup(ts) => ts.iter().all(flat), _ => false } }

/// A collection that can be referred to. A monotone one depends on enclosing variables, in a way recursion may use.
#[derive(Clone, Debug)]
pub struct Ent { pub e: Value, pub k: Ty, pub v: Ty, pub dep: bool, pub mono: bool }
impl Ent { pub fn of(e: Value, k: Ty, v: Ty) -> Self { Ent { e, k, v, dep: false, mono: false } }
    /// As seen from elsewhere.
    pub fn plain(&self) -> Self { Ent { dep: false, mono: false, ..self.clone() } }
}

pub struct IGen<'a> { pub rng: &'a mut Rng, pub sources: Vec<Ent>, fresh: usize, pub lift: bool, pub delay: bool }

impl<'a> IGen<'a> {
    pub fn new(rng: &'a mut Rng, nin: u64) -> Self { IGen { rng, sources: (0..nin).map(|j| Ent::of(json!(["input", j]), ints(2), unit())).collect(), fresh: 0, lift: true, delay: true } }
    /// Over the given sources, perhaps without what depends on iterations.
    pub fn over(rng: &'a mut Rng, sources: Vec<Ent>, plain: bool) -> Self { IGen { rng, sources, fresh: 0, lift: !plain, delay: !plain } }
    fn name(&mut self, p: &str) -> String { self.fresh += 1; format!("{p}{}", self.fresh) }
    fn coin(&mut self, a: u64, b: u64) -> bool { self.rng.chance(a, b) }

    fn ty(&mut self, depth: u64) -> Ty {
        match self.rng.below(if depth == 0 { 3 } else { 7 }) {
            0..=2 => Int,
            3 => { let n = self.rng.below(3); Tup((0..n).map(|_| self.ty(depth - 1)).collect()) }
            4 | 5 => List(Box::new(self.ty(depth - 1))),
            _ => { let n = 1 + self.rng.below(3); Sum((0..n).map(|_| { let m = self.rng.below(3); (0..m).map(|_| self.ty(depth - 1)).collect() }).collect()) }
        }
    }
    fn row(&mut self, max: u64) -> Ty { let n = self.rng.below(max + 1); Tup((0..n).map(|_| if self.rng.chance(3, 4) { Int } else { self.ty(2) }).collect()) }

    /// Places of the wanted type: rows, binders, and fields of these.
    fn places(env: &[Ty], bound: &[Ty], want: &Ty) -> Vec<Value> {
        fn walk(e: Value, t: &Ty, want: &Ty, out: &mut Vec<Value>) {
            if t == want { out.push(e.clone()); }
            if let Tup(ts) = t { for (j, x) in ts.iter().enumerate() { walk(json!(["proj", e, j]), x, want, out); } }
        }
        let mut out = Vec::new();
        for (j, t) in env.iter().enumerate() { walk(json!(["var", j]), t, want, &mut out); }
        for (j, t) in bound.iter().enumerate() { walk(json!(["bound", bound.len() - 1 - j]), t, want, &mut out); }
        out
    }
    fn place(&mut self, env: &[Ty], bound: &[Ty], want: &Ty) -> Option<Value> {
        let p = Self::places(env, bound, want);
        if p.is_empty() { None } else { Some(self.rng.pick(&p).clone()) }
    }
    fn any_type(&mut self, env: &[Ty], bound: &[Ty], pred: fn(&Ty) -> bool) -> Option<Ty> {
        fn walk(t: &Ty, pred: fn(&Ty) -> bool, out: &mut Vec<Ty>) { if pred(t) { out.push(t.clone()); } if let Tup(ts) = t { for x in ts { walk(x, pred, out); } } }
        let mut out = Vec::new();
        for t in env.iter().chain(bound) { walk(t, pred, &mut out); }
        if out.is_empty() { None } else { Some(self.rng.pick(&out).clone()) }
    }
    /// A term of the wanted type.
    fn term(&mut self, env: &[Ty], bound: &[Ty], want: &Ty, depth: u64) -> Value {
        if depth == 0 || self.coin(2, 5) { if let Some(p) = self.place(env, bound, want) { return p; } }
        if depth > 0 {
            match self.rng.below(9) {
                0 => { let c = self.truth(env, bound, depth - 1); let a = self.term(env, bound, want, depth - 1); let b = self.term(env, bound, want, depth - 1); return json!(["if", c, a, b]); }
                // a case, of something at hand or just made
                1 | 2 => {
                    let st = match self.any_type(env, bound, |t| matches!(t, Sum(_))) { Some(t) => t, None => Sum(vec![vec![Int], vec![], vec![Int, Int]]) };
                    let sc = self.term(env, bound, &st, depth - 1);
                    let Sum(alts) = &st else { unreachable!() };
                    let mut arms = Vec::new();
                    let mut default = false;
                    let used = if self.coin(1, 3) { default = true; 1 + self.rng.below(alts.len() as u64) as usize } else { alts.len() };
                    for (j, a) in alts[..used].iter().enumerate() {
                        if j + 1 < used && self.coin(1, 3) { arms.push(json!(["gap"])); default = true; continue; }
                        let mut b = bound.to_vec(); b.push(Tup(a.clone()));
                        arms.push(self.term(env, &b, want, depth - 1));
                    }
                    let d: Vec<Value> = if default || self.coin(1, 4) { vec![self.term(env, bound, want, depth - 1)] } else { vec![] };
                    return json!(["case", sc, arms, d, alts.iter().map(|a| a.len()).collect::<Vec<_>>()]);
                }
                3 => if let Some(List(x)) = self.any_type(env, bound, |t| matches!(t, List(_))) {
                    let l = self.term(env, bound, &List(x.clone()), depth - 1);
                    let i = self.term(env, bound, want, depth - 1);
                    let mut b = bound.to_vec(); b.push(want.clone()); b.push(*x);
                    let st = self.term(env, &b, want, depth - 1);
                    return json!(["fold", l, i, st]);
                },
                _ => {}
            }
        }
        match want {
            Int => {
                if depth == 0 { return json!(["int", self.rng.below(6) as i64 - 1]); }
                match self.rng.below(9) {
                    0 => json!(["int", self.rng.below(6) as i64 - 1]),
                    1 | 2 => { let op = *self.rng.pick(&["+", "-"]); let a = self.term(env, bound, &Int, depth - 1); let b = self.term(env, bound, &Int, depth - 1); json!([op, a, b]) }
                    3 => { let a = self.term(env, bound, &Int, 0); json!(["*", a, ["int", self.rng.below(4)]]) }
                    4 => { let a = self.term(env, bound, &Int, depth - 1); json!(["neg", a]) }
                    5 => match self.any_type(env, bound, |t| matches!(t, Tup(_) | List(_))) { Some(t) => { let x = self.term(env, bound, &t, depth - 1); json!(["len", x]) } None => json!(["int", 2]) },
                    _ => self.truth(env, bound, depth),
                }
            }
            Tup(ts) => { let xs: Vec<Value> = ts.iter().map(|t| self.term(env, bound, t, depth.saturating_sub(1))).collect(); json!(["tuple", xs]) }
            List(t) => { let n = self.rng.below(4); let xs: Vec<Value> = (0..n).map(|_| self.term(env, bound, t, depth.saturating_sub(1))).collect(); json!(["list", xs]) }
            Sum(alts) => {
                let j = self.rng.below(alts.len() as u64) as usize;
                // the tag can depend on data if it does not matter for the payload
                let x = self.term(env, bound, &Tup(alts[j].clone()), depth.saturating_sub(1));
                if j == 0 && alts.len() > 1 && alts[0] == alts[1] && depth > 0 { let t = self.truth(env, bound, depth - 1); json!(["inject", ["not", t], x]) } else { json!(["inject", ["int", j], x]) }
            }
        }
    }
    /// A term that is zero or one, or at least an integer.
    fn truth(&mut self, env: &[Ty], bound: &[Ty], depth: u64) -> Value {
        let d = depth.saturating_sub(1);
        match self.rng.below(if depth == 0 { 4 } else { 9 }) {
            4 => { let (a, b) = (self.truth(env, bound, d), self.truth(env, bound, d)); json!([*self.rng.pick(&["and", "or"]), a, b]) }
            5 => { let a = self.truth(env, bound, d); json!(["not", a]) }
            6 => match self.any_type(env, bound, |t| matches!(t, Sum(_))) { Some(t) => { let x = self.term(env, bound, &t, d); json!(["istag", self.rng.below(3), x]) } None => self.term(env, bound, &Int, d) },
            7 => self.term(env, bound, &Int, d),
            _ => {
                let t = match self.any_type(env, bound, |_| true) { Some(t) if self.rng.chance(1, 2) => t, _ => Int };
                let (a, b) = (self.term(env, bound, &t, d), self.term(env, bound, &t, d));
                json!([*self.rng.pick(&["==", "!=", "<", "<=", ">", ">="]), a, b])
            }
        }
    }
    /// A projection to rows of the wanted types, perhaps by splicing rows.
    fn project(&mut self, env: &[Ty], k: &Ty, v: &Ty) -> Value {
        let depth = self.rng.below(4);
        let mut part = |w: &Ty| {
            for (j, t) in env.iter().enumerate() { if t == w && matches!(t, Tup(_)) && self.rng.chance(1, 2) { return json!(["tuple", [["spread", ["var", j]]]]); } }
            let Tup(ts) = w else { unreachable!() };
            for (j, t) in env.iter().enumerate() { if let Tup(us) = t { if us.len() < ts.len() && ts[..us.len()] == us[..] && self.rng.chance(1, 2) {
                let mut xs = vec![json!(["spread", ["var", j]])];
                for x in &ts[us.len()..] { xs.push(self.term(env, &[], x, depth)); }
                return json!(["tuple", xs]);
            } } }
            json!(["tuple", ts.iter().map(|t| self.term(env, &[], t, depth)).collect::<Vec<_>>()])
        };
        json!([part(k), part(v)])
    }
    fn to(&mut self, a: &Ent, k: &Ty, v: &Ty) -> Ent {
        let tup = |t: &Ty| if matches!(t, Tup(_)) { t.clone() } else { Tup(vec![t.clone()]) };
        let (k, v) = (&tup(k), &tup(v));
        let p = self.project(&[a.k.clone(), a.v.clone()], k, v);
        Ent { e: json!(["map", a.e, p]), k: k.clone(), v: v.clone(), dep: a.dep, mono: false }
    }
    fn leaf(&mut self, avail: &[Ent], root: bool) -> Ent {
        if avail.is_empty() || (root && self.coin(1, 4)) { return self.rng.pick(&self.sources).clone(); }
        // the latest are preferred, so that programs are deep
        let n = avail.len() as u64;
        let j = if self.coin(1, 2) { n - 1 - self.rng.below(n.min(2)) } else { self.rng.below(n) };
        avail[j as usize].clone()
    }
    fn small(&mut self, env: &[Ty]) -> Value {
        let c = json!(["int", self.rng.below(16)]);
        match self.rng.below(3) { 0 => c, 1 => { let t = self.truth(env, &[], 1); json!(["not", t]) } _ => { let t = self.truth(env, &[], 1); json!(["if", t, c, ["int", self.rng.below(3)]]) } }
    }
    /// Any collection.
    fn any(&mut self, avail: &[Ent], root: bool, depth: u64) -> Ent {
        if depth == 0 { return self.leaf(avail, root); }
        let a = self.any(avail, root, depth - 1);
        let env = [a.k.clone(), a.v.clone()];
        let keep = |e: Value| Ent { e, mono: false, ..a.clone() };
        match self.rng.below(15) {
            0 | 1 => { let (k, v) = (self.row(2), self.row(3)); self.to(&a, &k, &v) }
            2 => { let t = self.truth(&env, &[], 2); keep(json!(["filter", a.e, t])) }
            3 => keep(json!(["neg", a.e])),
            4 | 5 => {
                let x = match self.any_type(&env, &[], |t| matches!(t, List(_))) { Some(List(x)) if self.rng.chance(3, 4) => *x, _ => self.ty(1) };
                let l = self.term(&env, &[], &List(Box::new(x.clone())), 2);
                Ent { e: json!(["flatmap", a.e, l]), v: Tup(vec![Int, x]), mono: false, ..a }
            }
            6 => keep(json!([*self.rng.pick(&["arrange", "inspect"]), a.e])),
            7 | 8 => {
                let a = if matches!(a.v, Tup(_)) { a } else { self.to(&a, &a.k, &a.v) };
                let b = self.leaf(avail, root);
                let b2 = if b.k == a.k && b.v == a.v { b } else { self.to(&b, &a.k, &a.v) };
                let mut parts = vec![a.e.clone(), if self.rng.chance(1, 2) { json!(["neg", b2.e]) } else { b2.e }];
                let mut dep = a.dep || b2.dep;
                if self.coin(1, 3) { let c = self.leaf(avail, root); let c2 = self.to(&c, &a.k, &a.v); parts.push(c2.e); dep |= c2.dep; }
                Ent { e: json!(["concat", parts]), dep, mono: false, ..a }
            }
            9 | 10 | 11 => {
                let d = self.rng.below(2);
                let b = self.any(avail, root, d);
                // a common key, that rows may well agree on
                let w = self.row(1);
                let k = if a.k == b.k { a.k.clone() } else if self.coin(2, 3) { ints(1) } else { w };
                let (a2, b2) = (if a.k == k { a } else { let v = a.v.clone(); self.to(&a, &k, &v) }, if b.k == k { b } else { let v = b.v.clone(); self.to(&b, &k, &v) });
                let (nk, nv) = (self.row(2), self.row(2));
                let p = self.project(&[k, a2.v.clone(), b2.v.clone()], &nk, &nv);
                Ent { e: json!(["join", a2.e, b2.e, p]), k: nk, v: nv, dep: a2.dep || b2.dep, mono: false }
            }
            _ => {
                let r = *self.rng.pick(&["min", "distinct", "count", "collect"]);
                let v = match r { "min" => a.v.clone(), "distinct" => unit(), "count" => ints(1), _ => List(Box::new(a.v.clone())) };
                Ent { e: json!(["red", a.e, r]), v, mono: false, ..a }
            }
        }
    }
    fn safe(&mut self, env: &[Ty], want: usize) -> Value {
        let xs: Vec<Value> = (0..want).map(|_| match self.place(env, &[], &Int) { Some(p) if self.rng.chance(6, 7) => p, _ => json!(["int", self.rng.below(3)]) }).collect();
        json!(["tuple", xs])
    }
    /// Rows of integers, each once, of a collection the variables do not affect.
    fn fixed(&mut self, avail: &[Ent], root: bool, nk: usize) -> Value {
        let cand: Vec<Ent> = avail.iter().filter(|x| !x.dep).cloned().collect();
        let a = self.leaf(&cand, root);
        let p = self.safe(&[a.k.clone(), a.v.clone()], nk);
        json!(["red", ["map", a.e, [p, ["tuple", []]]], "distinct"])
    }
    /// A collection of integer keys that grows when variables do.
    fn mono(&mut self, avail: &[Ent], nk: usize, depth: u64) -> Value {
        let cand: Vec<Ent> = avail.iter().filter(|x| x.mono && flat(&x.k)).cloned().collect();
        if depth == 0 || self.coin(1, 4) {
            if cand.is_empty() || self.coin(1, 4) { return self.fixed(avail, false, nk); }
            let a = self.rng.pick(&cand).clone();
            let p = self.safe(&[a.k.clone(), a.v.clone()], nk);
            return json!(["map", a.e, [p, ["tuple", []]]]);
        }
        match self.rng.below(5) {
            0 => { let a = self.mono(avail, nk, depth - 1); let b = self.mono(avail, nk, depth - 1); json!(["concat", [a, b]]) }
            1 => { let a = self.mono(avail, nk, depth - 1); let t = self.truth(&[ints(nk), unit()], &[], 1); json!(["filter", a, t]) }
            _ => {
                let a = self.mono(avail, 2, depth - 1); let b = self.mono(avail, 2, depth - 1);
                let key = |j: usize, e: Value| json!(["map", e, [["tuple", [["proj", ["var", 0], j]]], ["tuple", [["proj", ["var", 0], 1 - j]]]]]);
                let (i, j) = (self.rng.below(2) as usize, self.rng.below(2) as usize);
                let p = self.safe(&[ints(1), ints(1), ints(1)], nk);
                json!(["join", key(i, a), key(j, b), [p, ["tuple", []]]])
            }
        }
    }
    /// The statements of a scope, and the names it can surrender.
    fn scope(&mut self, outer: &[Ent], root: bool, level: u64) -> (Vec<Value>, Vec<(String, Ent)>) {
        let mut body = Vec::new();
        let mut out: Vec<(String, Ent)> = Vec::new();
        let mut avail: Vec<Ent> = outer.to_vec();
        let add = |avail: &mut Vec<Ent>, out: &mut Vec<(String, Ent)>, nm: String, mut x: Ent| { x.e = json!(["name", nm]); avail.push(x.clone()); out.push((nm, x)); };
        let steps = if root { 2 + self.rng.below(3) } else { 1 + self.rng.below(3) };
        if root {
            let nm = self.name("z");
            let x = self.rng.pick(&self.sources).clone();
            let (e, k, v) = if x.k != ints(2) || self.coin(1, 2) { (x.e, x.k, x.v) } else { (json!(["map", x.e, [["tuple", [["proj", ["var", 0], 0]]], ["tuple", [["proj", ["var", 0], 1]]]]]), ints(1), ints(1)) };
            body.push(json!(["let", nm, e]));
            add(&mut avail, &mut out, nm, Ent { e: json!(0), k, v, dep: false, mono: false });
        } else {
            // recursive variables
            match self.rng.below(6) {
                0 => {}
                1 => { // least labels
                    let e = { let x = self.fixed(outer, false, 2); json!(["map", x, [["tuple", [["proj", ["var", 0], 0]]], ["tuple", [["proj", ["var", 0], 1]]]]]) };
                    let mut src = { let x = self.fixed(outer, false, 2); json!(["map", x, [["tuple", [["proj", ["var", 0], 1]]], ["tuple", [["proj", ["var", 0], 0]]]]]) };
                    if self.delay && self.coin(1, 2) { src = json!(["enter_at", src, ["if", ["<", ["proj", ["var", 1], 0], ["int", 4]], ["if", ["<", ["int", 0], ["proj", ["var", 1], 0]], ["proj", ["var", 1], 0], ["int", 0]], ["int", 5]]]); }
                    let (l, p) = (self.name("l"), self.name("p"));
                    let x = json!(["proj", ["var", 1], 0]);
                    let f = if self.coin(1, 2) { x } else { json!(["if", ["<", x, ["int", 5]], ["+", x, ["int", 1]], x]) };
                    body.push(json!(["let", l, ["red", ["concat", [["name", p], src]], "min"]]));
                    body.push(json!(["var", p, ["join", ["name", l], e, [["tuple", [["spread", ["var", 2]]]], ["tuple", [f]]]]]));
                    let dep = true;
                    add(&mut avail, &mut out, l, Ent { e: json!(0), k: ints(1), v: ints(1), dep, mono: false });
                    add(&mut avail, &mut out, p, Ent { e: json!(0), k: ints(1), v: ints(1), dep, mono: false });
                }
                _ => {
                    let nv = 1 + self.rng.below(2) as usize;
                    let mut vars = Vec::new();
                    for _ in 0..nv { let nm = self.name("x"); let nk = 1 + self.rng.below(2) as usize; add(&mut avail, &mut out, nm.clone(), Ent { e: json!(0), k: ints(nk), v: unit(), dep: true, mono: true }); vars.push((nm, nk)); }
                    for (nm, nk) in vars {
                        let mut base = self.fixed(outer, false, nk);
                        if self.delay && self.coin(1, 4) { let f = self.small(&[ints(nk), unit()]); base = json!(["enter_at", base, f]); }
                        let step = self.mono(&avail, nk, 2);
                        let mut parts = vec![base, step];
                        if self.coin(1, 3) { parts.push(json!(["name", nm])); }
                        body.push(json!(["var", nm, ["red", ["concat", parts], "distinct"]]));
                    }
                }
            }
        }
        for _ in 0..steps {
            match self.rng.below(6) {
                0 | 1 if level < 2 => {
                    let seen: Vec<Ent> = avail.iter().filter(|x| x.e[0] == "name").cloned().collect();
                    let (b, x) = self.scope(&seen, false, level + 1);
                    let sn = self.name("s");
                    body.push(json!(["scope", sn, b]));
                    // what recursion may use stays so: a least fixed point grows with what it is made of
                    for (nm, ent) in x {
                        let inherits = ent.mono && outer.iter().chain(&avail).any(|o| o.mono);
                        let dep = avail.iter().any(|o| o.dep);
                        avail.push(Ent { e: json!(["qual", sn, nm]), dep, mono: inherits, ..ent });
                    }
                }
                2 if !root => { // a variable that is not recursive
                    let d = 1 + self.rng.below(2);
                    let mut x = self.any(&avail, root, d);
                    if self.delay && self.coin(1, 3) { let f = self.small(&[x.k.clone(), x.v.clone()]); x.e = json!(["enter_at", x.e, f]); }
                    let nm = self.name("y");
                    body.push(json!(["var", nm, x.e.clone()]));
                    x.dep = true; x.mono = false;
                    add(&mut avail, &mut out, nm, x);
                }
                _ => {
                    let d = 1 + self.rng.below(3);
                    let mut x = self.any(&avail, root, d);
                    if !root && self.delay && self.coin(1, 5) { let f = self.small(&[x.k.clone(), x.v.clone()]); x.e = json!(["enter_at", x.e, f]); x.dep = true; }
                    let nm = self.name("z");
                    body.push(json!(["let", nm, x.e.clone()]));
                    add(&mut avail, &mut out, nm, x);
                }
            }
        }
        if !root && out.is_empty() { return self.scope(outer, root, level); }
        if !root && self.lift && self.coin(1, 3) {
            // the iterations at which things change, for the enclosing scope only
            let (_, x) = self.rng.pick(&out).clone();
            let mut src = x.e.clone();
            let mut dep = x.dep;
            if self.delay && self.coin(1, 3) { let f = self.small(&[x.k.clone(), x.v.clone()]); src = json!(["enter_at", src, f]); dep = true; }
            if self.coin(1, 4) { let t = self.truth(&[x.k.clone(), x.v.clone()], &[], 1); src = json!(["filter", src, t]); }
            let nm = self.name("i");
            let v = match x.v { Tup(mut ts) => { ts.push(Int); Tup(ts) } t => Tup(vec![t, Int]) };
            let mut e = json!(["lift_iter", src]);
            if self.coin(1, 4) { e = json!(["neg", e]); }
            body.push(json!(["let", nm, e]));
            out.push((nm, Ent { e: json!(0), k: x.k, v, dep, mono: false }));
        }
        if !root {
            let n = 1 + self.rng.below(2) as usize;
            let keep: Vec<_> = (0..n).map(|_| out[out.len() - 1 - self.rng.below(out.len().min(3) as u64) as usize].clone()).collect();
            out = keep;
        } else {
            out = avail.into_iter().map(|x| (String::new(), x)).collect();
        }
        (body, out)
    }
    pub fn program(&mut self) -> (Value, Vec<(String, Ent)>) {
        if self.coin(1, 10) && self.sources[0].k == ints(2) { return self.template(); }
        let (mut body, avail) = self.scope(&[], true, 0);
        let avail: Vec<Ent> = avail.into_iter().map(|x| x.1).collect();
        let mut names = Vec::new();
        for j in 0..1 + self.rng.below(2) {
            let d = self.rng.below(3);
            let x = self.any(&avail, true, d);
            let nm = format!("o{j}");
            body.push(json!(["export", nm, x.e.clone()]));
            names.push((nm, x));
        }
        (json!(body), names)
    }
    fn template(&mut self) -> (Value, Vec<(String, Ent)>) {
        let f = |j: usize| json!(["proj", ["var", 0], j]);
        let t = |xs: Vec<Value>| json!(["tuple", xs]);
        let p = |r: usize, j: usize| json!(["proj", ["var", r], j]);
        let sp = |r: usize| json!(["spread", ["var", r]]);
        let nm = |x: &str| json!(["name", x]);
        let i = self.sources[0].e.clone();
        let rows = json!(["red", ["map", i, [t(vec![sp(0)]), t(vec![])]], "distinct"]);
        let edges = json!(["map", rows, [t(vec![f(0)]), t(vec![f(1)])]]);
        let label = |e: &str, over: &str, d: bool| {
            let mut nodes = json!(["map", nm(e), [t(vec![sp(1)]), t(vec![sp(1)])]]);
            if d { nodes = json!(["enter_at", nodes, ["if", ["<", p(1, 0), ["int", 4]], ["if", ["<", ["int", 0], p(1, 0)], p(1, 0), ["int", 0]], ["int", 5]]]); }
            json!([["let", format!("n{over}"), nodes],
                ["let", format!("l{over}"), ["red", ["concat", [nm(&format!("p{over}")), nm(&format!("n{over}"))]], "min"]],
                ["var", format!("p{over}"), ["join", nm(&format!("l{over}")), nm(over), [t(vec![sp(2)]), t(vec![sp(1)])]]]])
        };
        let same = |e: &str, s: &str, l: &str| {
            let a = json!(["join", nm(e), ["qual", s, l], [t(vec![sp(1)]), t(vec![sp(0), sp(2)])]]);
            let b = json!(["join", a, ["qual", s, l], [t(vec![p(1, 0)]), t(vec![sp(0), p(1, 1), sp(2)])]]);
            json!(["map", ["filter", b, ["==", p(1, 1), p(1, 2)]], [t(vec![sp(0)]), t(vec![p(1, 0)])]])
        };
        match self.rng.below(2) {
            0 => {
                let d = self.coin(1, 2);
                let body = json!([
                    ["let", "scc", ["concat", [nm("edges"), nm("trim")]]],
                    ["scope", "fwd", label("edges", "scc", d)],
                    ["let", "keep", same("edges", "fwd", "lscc")],
                    ["scope", "bwd", label("trans", "keep", d)],
                    ["let", "back", same("trans", "bwd", "lkeep")],
                    ["var", "trim", ["concat", [nm("back"), ["neg", nm("edges")]]]]]);
                (json!([["let", "edges", edges], ["let", "trans", ["map", nm("edges"), [t(vec![sp(1)]), t(vec![sp(0)])]]], ["scope", "outer", body], ["export", "o0", ["qual", "outer", "scc"]]]), vec![("o0".into(), Ent::of(json!(0), ints(1), ints(1)))])
            }
            _ => {
                // stable matching: a row (a, b) is a pair, each preferring the least of the other
                let (a, b) = (p(0, 0), p(0, 1));
                let pairs = json!(["map", rows, [t(vec![a.clone()]), t(vec![json!(["*", b.clone(), ["int", 2]]), b, a])]]);
                let flip = |e: &str| json!(["map", nm(e), [t(vec![p(1, 1)]), t(vec![p(1, 2), f(0), p(1, 0)])]]);
                let body = json!([
                    ["let", "active", ["concat", [nm("pairs"), nm("removals")]]],
                    ["let", "props", ["red", nm("active"), "min"]],
                    ["let", "byb", flip("props")],
                    ["let", "accpt", ["red", nm("byb"), "min"]],
                    ["let", "bya", flip("accpt")],
                    ["var", "removals", ["arrange", ["concat", [nm("removals"), nm("bya"), ["neg", nm("props")]]]]]]);
                (json!([["let", "pairs", pairs], ["scope", "matching", body], ["export", "o0", ["qual", "matching", "props"]]]), vec![("o0".into(), Ent::of(json!(0), ints(1), ints(3)))])
            }
        }
    }
}

