//! Explanations of interpreted programs.
//!
//! Events: ["demand", program, inputs, asked, demanded, positive] ["clone", program, inputs, rows]
use ddv::common::*;
use crate::ddl::*;
use interactive::backend::vec::evaluate;
use interactive::explain;
use interactive::ir::Value as V;
use interactive::scope_ir::{Program, Source};
use serde_json::{json, Value};

/// A collection of rows of integers: its expression, the widths of keys and values.
#[derive(Clone)]
struct Ent { e: Value, k: usize, v: usize }

struct EGen<'a> { rng: &'a mut Rng, nin: u64, fresh: usize }

fn nm(x: &str) -> Value { json!(["name", x]) }
fn tup(xs: Vec<Value>) -> Value { json!(["tuple", xs]) }
fn fld(r: usize, j: usize) -> Value { json!(["proj", ["var", r], j]) }

impl<'a> EGen<'a> {
    fn coin(&mut self, a: u64, b: u64) -> bool { self.rng.chance(a, b) }
    fn name(&mut self, p: &str) -> String { self.fresh += 1; format!("{p}{}", self.fresh) }
    fn int(&mut self, rows: &[usize], free: bool) -> Value {
        let all: Vec<Value> = rows.iter().enumerate().flat_map(|(r, w)| (0..*w).map(move |j| fld(r, j))).collect();
        if all.is_empty() || self.coin(1, 9) { return json!(["int", self.rng.below(3)]); }
        let a = self.rng.pick(&all).clone();
        if free && self.coin(1, 8) { let b = self.rng.pick(&all).clone(); return json!([*self.rng.pick(&["+", "-"]), a, b]); }
        a
    }
    fn side(&mut self, rows: &[usize], want: usize, free: bool) -> Value {
        let (mut out, mut have) = (vec![], 0);
        while have < want {
            let fit: Vec<usize> = (0..rows.len()).filter(|r| rows[*r] > 0 && rows[*r] <= want - have).collect();
            if !fit.is_empty() && self.coin(1, 4) { let r = *self.rng.pick(&fit); out.push(json!(["spread", ["var", r]])); have += rows[r]; }
            else { let x = self.int(rows, free); out.push(x); have += 1; }
        }
        tup(out)
    }
    fn leaf(&mut self, avail: &[Ent], root: bool) -> Ent {
        if avail.is_empty() || (root && self.coin(1, 3)) { return Ent { e: json!(["input", self.rng.below(self.nin)]), k: 2, v: 0 }; }
        self.rng.pick(avail).clone()
    }
    fn shaped(&mut self, a: Ent, k: usize, v: usize, free: bool) -> Ent {
        if a.k == k && a.v == v && self.coin(4, 5) { return a; }
        let p = json!([self.side(&[a.k, a.v], k, free), self.side(&[a.k, a.v], v, free)]);
        Ent { e: json!(["map", a.e, p]), k, v }
    }
    fn truth(&mut self, rows: &[usize]) -> Value {
        let (a, b) = (self.int(rows, true), self.int(rows, true));
        let t = json!([*self.rng.pick(&["<", "<=", "!=", "!=", "==", ">"]), a, b]);
        if self.coin(1, 4) { let u = self.truth(rows); json!([*self.rng.pick(&["and", "or"]), t, u]) } else { t }
    }
    /// A collection that grows with what it is made of.
    fn grows(&mut self, avail: &[Ent], root: bool, free: bool, depth: u64) -> Ent {
        if depth == 0 { return self.leaf(avail, root); }
        let a = self.grows(avail, root, free, depth - 1);
        match self.rng.below(12) {
            0 | 1 => { let (k, v) = (1 + self.rng.below(2) as usize, self.rng.below(3) as usize); let p = json!([self.side(&[a.k, a.v], k, free), self.side(&[a.k, a.v], v, free)]); Ent { e: json!(["map", a.e, p]), k, v } }
            2 => { let t = self.truth(&[a.k, a.v]); Ent { e: json!(["filter", a.e, t]), ..a } }
            3 => Ent { e: json!([*self.rng.pick(&["arrange", "inspect"]), a.e]), ..a },
            4 | 5 => {
                let mut parts = vec![a.e.clone()];
                for _ in 0..1 + self.rng.below(2) { let b = self.grows(avail, root, free, depth / 2); parts.push(self.shaped(b, a.k, a.v, free).e); }
                Ent { e: json!(["concat", parts]), ..a }
            }
            6 => Ent { e: json!(["red", a.e, "distinct"]), v: 0, ..a },
            7 if free => {
                let n = 1 + self.rng.below(3);
                let xs: Vec<Value> = (0..n).map(|_| self.int(&[a.k, a.v], true)).collect();
                // the position and the element
                Ent { e: json!(["flatmap", a.e, ["list", xs]]), v: 2, ..a }
            }
            _ => {
                let b = self.grows(avail, root, free, depth / 2);
                let k = if a.k == b.k && self.coin(1, 2) { a.k } else { 1 };
                let (va, vb) = (self.rng.below(3) as usize, self.rng.below(3) as usize);
                let (a, b) = (if a.k == k { a } else { self.shaped(a, k, va, free) }, if b.k == k { b } else { self.shaped(b, k, vb, free) });
                let (nk, nv) = (1 + self.rng.below(2) as usize, self.rng.below(3) as usize);
                let rows = [k, a.v, b.v];
                let p = json!([self.side(&rows, nk, free), self.side(&rows, nv, free)]);
                Ent { e: json!(["join", a.e, b.e, p]), k: nk, v: nv }
            }
        }
    }
    /// A recursive scope: its statements, and the names it can surrender.
    fn scope(&mut self, outer: &[Ent], level: u64) -> (Vec<Value>, Vec<(String, Ent)>) {
        let (mut body, mut out) = (vec![], vec![]);
        // the scopes beside this one are not seen from within
        let outer: Vec<Ent> = outer.iter().filter(|x| x.e[0] == "name").cloned().collect();
        let outer = &outer[..];
        let mut avail = outer.to_vec();
        let mut vars = vec![];
        for _ in 0..1 + self.rng.below(2) {
            let x = self.name("x");
            let ent = Ent { e: nm(&x), k: 1 + self.rng.below(2) as usize, v: 0 };
            avail.push(ent.clone());
            vars.push((x, ent));
        }
        for _ in 0..self.rng.below(3) {
            if level < 2 && self.coin(1, 3) {
                let (b, xs) = self.scope(&avail, level + 1);
                let sn = self.name("s");
                body.push(json!(["scope", sn, b]));
                for (n, x) in xs { avail.push(Ent { e: json!(["qual", sn, n]), ..x }); }
            } else {
                let a = self.grows(&avail, false, false, 2);
                let z = self.name("z");
                body.push(json!(["let", z, a.e]));
                let ent = Ent { e: nm(&z), ..a };
                avail.push(ent.clone());
                out.push((z, ent));
            }
        }
        for (x, ent) in vars {
            let a = self.leaf(outer, false);
            let base = self.shaped(a, ent.k, 0, false);
            let b = self.grows(&avail, false, false, 2);
            let step = self.shaped(b, ent.k, 0, false);
            let mut parts = vec![base.e, step.e];
            if self.coin(1, 3) { parts.push(nm(&x)); }
            body.push(json!(["var", x, ["red", ["concat", parts], "distinct"]]));
            out.push((x, ent));
        }
        (body, out)
    }
    /// Least labels along edges.
    fn labels(&mut self, avail: &[Ent]) -> (Vec<Value>, String, Ent) {
        let avail: Vec<Ent> = avail.iter().filter(|x| x.e[0] == "name").cloned().collect();
        let (a, b) = (self.leaf(&avail, false), self.leaf(&avail, false));
        let (es, of) = (self.shaped(a, 1, 1, false), self.shaped(b, 1, 1, false));
        let (l, p, sn) = (self.name("l"), self.name("p"), self.name("s"));
        let mut of = json!(["map", of.e, [tup(vec![fld(0, 0)]), tup(vec![fld(1, 0)])]]);
        if self.coin(1, 2) { of = json!(["enter_at", of, ["if", ["<", fld(1, 0), ["int", 4]], ["if", ["<", ["int", 0], fld(1, 0)], fld(1, 0), ["int", 0]], ["int", 5]]]); }
        let body = vec![json!(["let", l, ["red", ["concat", [nm(&p), of]], "min"]]),
                        json!(["var", p, ["join", nm(&l), es.e, [tup(vec![json!(["spread", ["var", 2]])]), tup(vec![fld(1, 0)])]]])];
        (vec![json!(["scope", sn, body])], sn.clone(), Ent { e: json!(["qual", sn, l]), k: 1, v: 1 })
    }
    /// A program, and whether its export grows with its inputs.
    fn program(&mut self) -> (Vec<Value>, bool) {
        let (mut body, mut avail, mut grows) = (vec![], vec![], true);
        let z = self.name("z");
        body.push(json!(["let", z, ["map", ["input", 0], [tup(vec![fld(0, 0)]), tup(vec![fld(0, 1)])]]]));
        avail.push(Ent { e: nm(&z), k: 1, v: 1 });
        for _ in 0..1 + self.rng.below(3) {
            match self.rng.below(5) {
                0 | 1 => {
                    let (b, xs) = self.scope(&avail, 1);
                    let sn = self.name("s");
                    body.push(json!(["scope", sn, b]));
                    for (n, x) in xs { avail.push(Ent { e: json!(["qual", sn, n]), ..x }); }
                }
                2 if self.coin(1, 2) && grows => {
                    grows = false;
                    let (b, _, x) = self.labels(&avail);
                    body.extend(b);
                    avail.push(x);
                }
                _ => {
                    let a = self.grows(&avail, true, true, 2);
                    let z = self.name("z");
                    body.push(json!(["let", z, a.e]));
                    avail.push(Ent { e: nm(&z), ..a });
                }
            }
        }
        // what is defined last is likely to depend on most
        let recent: Vec<Ent> = avail.iter().rev().take(2).cloned().collect();
        let mut x = self.grows(&recent, true, true, 2);
        if grows && self.coin(1, 4) {
            // a reduction that does not grow, of rows that occur once
            grows = false;
            let r = *self.rng.pick(&["count", "min", "collect"]);
            let (k, v) = (1, 1 + self.rng.below(2) as usize);
            let all = self.shaped(x, k + v, 0, true);
            let set = json!(["red", all.e, "distinct"]);
            let cols = |a: usize, b: usize| tup((a..b).map(|j| fld(0, j)).collect());
            x = Ent { e: json!(["red", ["map", set, [cols(0, k), cols(k, k + v)]], r]), k, v: match r { "min" => v, _ => 1 } };
            if r != "collect" && self.coin(1, 2) { let t = self.truth(&[x.k, x.v]); x.e = json!(["filter", x.e, t]); }
        }
        body.push(json!(["export", "o0", x.e]));
        (body, grows)
    }
}

fn label(e: &str, over: &str, d: bool) -> Value {
    let sp = |r: usize| json!(["spread", ["var", r]]);
    let mut nodes = json!(["map", nm(e), [tup(vec![sp(1)]), tup(vec![sp(1)])]]);
    if d { nodes = json!(["enter_at", nodes, fld(1, 0)]); }
    json!([["let", format!("n{over}"), nodes],
        ["let", format!("l{over}"), ["red", ["concat", [nm(&format!("p{over}")), nm(&format!("n{over}"))]], "min"]],
        ["var", format!("p{over}"), ["join", nm(&format!("l{over}")), nm(over), [tup(vec![sp(2)]), tup(vec![sp(1)])]]]])
}
/// Edges within components, as the example program has it.
fn components(d: bool) -> Vec<Value> {
    let sp = |r: usize| json!(["spread", ["var", r]]);
    let same = |e: &str, s: &str, l: &str| {
        let a = json!(["join", nm(e), ["qual", s, l], [tup(vec![sp(1)]), tup(vec![sp(0), sp(2)])]]);
        let b = json!(["join", a, ["qual", s, l], [tup(vec![sp(0)]), tup(vec![sp(1), sp(2)])]]);
        json!(["map", ["filter", b, ["==", fld(1, 1), fld(1, 2)]], [tup(vec![sp(0)]), tup(vec![fld(1, 0)])]])
    };
    let body = json!([
        ["let", "scc", ["concat", [nm("edges"), nm("trim")]]],
        ["scope", "fwd", label("edges", "scc", d)],
        ["let", "keep", same("edges", "fwd", "lscc")],
        ["scope", "bwd", label("trans", "keep", d)],
        ["let", "back", same("trans", "bwd", "lkeep")],
        ["var", "trim", ["concat", [nm("back"), ["neg", nm("edges")]]]]]);
    vec![json!(["let", "edges", ["map", ["input", 0], [tup(vec![fld(0, 0)]), tup(vec![fld(0, 1)])]]]),
         json!(["let", "trans", ["map", nm("edges"), [tup(vec![sp(1)]), tup(vec![sp(0)])]]]),
         json!(["scope", "outer", body]), json!(["export", "o0", ["qual", "outer", "scc"]])]
}

fn rows(xs: &[((V, V), i64)]) -> Vec<Value> { xs.iter().map(|((k, v), d)| json!([[vj(k), vj(v)], d])).collect() }
fn fields(v: &V) -> Vec<V> { match v { V::Tuple(xs) => xs.clone(), x => vec![x.clone()] } }

pub fn family_explain(_i: usize, rng: &mut Rng, _script: Option<&Value>) -> Value {
    let nin = 1 + rng.below(2);
    let special = rng.chance(1, 12);
    let (prog, positive) = if special { let d = rng.chance(1, 2); (components(d), false) } else { EGen { rng, nin, fresh: 0 }.program() };
    let prog = json!(prog);
    // what it reads
    let plain: Program = compile(&prog, &format!("{}-{}", if rng.chance(2, 3) { "p" } else { "a" }, rng.below(1000)));
    let reads: Vec<usize> = plain.root.imports.iter().map(|i| match &i.from { Source::Input(j) => *j, o => panic!("source {o:?}") }).collect();
    let nread = reads.iter().max().map(|m| m + 1).unwrap_or(0);
    let shapes: Vec<(usize, usize)> = reads.iter().map(|_| (2, 0)).collect();
    let nodes = if special { 3 + rng.below(4) } else { 2 + rng.below(3) };
    let inputs: Vec<Vec<(V, V)>> = (0..nread).map(|_| {
        let n = if special { nodes + rng.below(5) } else { 1 + rng.below(6) };
        let mut out: Vec<(V, V)> = (0..n).map(|_| (V::Tuple(vec![V::Int(rng.below(nodes) as i64), V::Int(rng.below(nodes) as i64)]), V::unit())).collect();
        if special { out.sort(); out.dedup(); }
        out
    }).collect();
    let mut run = compile(&prog, &format!("p-{}", rng.below(1000)));
    if rng.chance(2, 3) { run.optimize(); }
    let result = evaluate(&run, &inputs).remove("o0").expect("export");
    let ins = json!(inputs.iter().map(|i| i.iter().map(|(k, v)| json!([[vj(k), vj(v)], 1])).collect::<Vec<_>>()).collect::<Vec<_>>());
    let mut ev = vec![];
    if rng.chance(1, 4) {
        let mut c = explain::clone_identity(&plain);
        if rng.chance(1, 2) { c.optimize(); }
        let r = evaluate(&c, &inputs).remove("o0").expect("export");
        ev.push(json!(["clone", prog, ins, rows(&r)]));
    }
    let (sk, sv) = explain::export_shape(&plain, &shapes);
    for (k, v) in result.iter().map(|x| &x.0) { assert!(fields(k).len() == sk && fields(v).len() == sv, "shape"); }
    let mut explained = explain::explain(&plain, &shapes);
    if rng.chance(2, 3) { explained.optimize(); }
    for _ in 0..1 + rng.below(2) {
        let mut asked: Vec<(V, V)> = vec![];
        for _ in 0..*rng.pick(&[1, 1, 1, 2, 2, 3]) {
            if result.is_empty() || rng.chance(1, 8) { asked.push((V::Tuple((0..sk).map(|_| V::Int(rng.below(nodes) as i64)).collect()), V::Tuple((0..sv).map(|_| V::Int(rng.below(nodes) as i64)).collect()))); }
            else { asked.push(rng.pick(&result).0.clone()); }
        }
        let mut all = inputs.clone();
        all.push(asked.iter().enumerate().map(|(q, (k, v))| { let mut f = fields(v); f.push(V::Int(q as i64)); (k.clone(), V::Tuple(f)) }).collect());
        let out = evaluate(&explained, &all);
        let demanded: Vec<Value> = (0..nread).map(|j| json!(out.get(&format!("demand:input{j}")).map(|r| rows(r)).unwrap_or_default())).collect();
        for j in &reads { assert!(out.contains_key(&format!("demand:input{j}")), "demands of input {j}"); }
        ev.push(json!(["demand", prog, ins, asked.iter().map(|(k, v)| json!([vj(k), vj(v)])).collect::<Vec<_>>(), demanded, positive]));
    }
    json!({"ev": ev})
}
