//! Sessions with a server of interpreted programs, recorded by way of what it prints.
//!
//! Events: ["install", name, program, ok] ["feed", program, input, row, time, diff, ok] ["drop", name, ok] ["tick"]
//!   ["peek", trace, [key]?, ok, rows] ["list", epoch, [[trace, importers]..], [[name, kind, inputs, imports, exports]..]]
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;

use interactive::ir::Value as V;
use interactive::scope_ir::Program;
use interactive::server::Server;
use serde_json::{json, Value};

use ddv::common::*;
use crate::ddl::*;

#[derive(Clone)]
enum Act {
    Install(String, Value, Program),
    /// By this worker, to a program, an input: a row, and perhaps a time.
    Feed(usize, String, usize, (V, V), Option<u64>, u64, i64),
    Drop(String),
    Tick,
    Peek(String, Option<V>),
    List,
}

extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(fd: i32) -> i32; }

/// What `f` prints.
fn printed(f: impl FnOnce()) -> String {
    let mut file = File::options().read(true).write(true).create(true).truncate(true).open(format!("stdout.{}.tmp", std::process::id())).unwrap();
    std::io::stdout().flush().unwrap();
    let saved = unsafe { let s = dup(1); dup2(file.as_raw_fd(), 1); s };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    std::io::stdout().flush().unwrap();
    unsafe { dup2(saved, 1); close(saved); }
    let mut text = String::new();
    file.seek(SeekFrom::Start(0)).unwrap();
    file.read_to_string(&mut text).unwrap();
    std::fs::remove_file(format!("stdout.{}.tmp", std::process::id())).ok();
    if r.is_err() { text += "\n@@crash\n"; }
    text
}

/// A value as it is printed: `Tuple([Int(1), Variant(0, Int(2))])`.
fn parse(b: &[u8], at: &mut usize) -> Value {
    let start = *at;
    while b[*at].is_ascii_alphabetic() { *at += 1; }
    let kind = &b[start..*at];
    assert_eq!(b[*at], b'('); *at += 1;
    let int = |at: &mut usize| { let s = *at; while b[*at] == b'-' || b[*at].is_ascii_digit() { *at += 1; } std::str::from_utf8(&b[s..*at]).unwrap().parse::<i64>().unwrap() };
    let v = match kind {
        b"Int" => json!(["i", int(at)]),
        b"Variant" => { let t = int(at); *at += 2; let x = parse(b, at); json!(["v", t, x]) }
        _ => {
            let mut out = vec![json!(if kind == b"Tuple" { "t" } else { "l" })];
            assert_eq!(b[*at], b'['); *at += 1;
            while b[*at] != b']' { out.push(parse(b, at)); if b[*at] == b',' { *at += 2; } }
            *at += 1;
            json!(out)
        }
    };
    assert_eq!(b[*at], b')'); *at += 1;
    v
}

/// A printed row: `  (K, V)  xD`.
fn row(line: &str) -> Value {
    let b = line.as_bytes();
    let mut at = 3;
    let k = parse(b, &mut at); at += 2;
    let v = parse(b, &mut at);
    let d: i64 = line[at + 1..].trim().trim_start_matches('x').parse().unwrap();
    json!([[k, v], d])
}

/// The parts of what `list` prints.
fn listing(lines: &[&str]) -> Option<Value> {
    let mut epoch = None;
    let (mut traces, mut progs) = (Vec::new(), Vec::new());
    for l in lines {
        if let Some(e) = l.strip_prefix("epoch: ") { epoch = e.parse::<u64>().ok(); }
        else if l.contains(" (importers: ") { let (n, r) = l.trim().split_once(" (importers: ")?; traces.push(json!([n, r.trim_end_matches(')').parse::<u64>().ok()?])); }
        else if l.contains(" (inputs: ") {
            let (n, r) = l.trim().split_once(" (inputs: ")?;
            let (name, kind) = match n.split_once(" [") { Some((a, k)) => (a, k.trim_end_matches(']')), None => (n, "program") };
            let (ins, r) = r.split_once(", imports: ")?;
            let (imps, exps) = r.split_once(", exports: ")?;
            let p = |x: &str| serde_json::from_str::<Value>(x).unwrap();
            progs.push(json!([name, kind, p(ins), p(imps), p(&exps[..exps.len() - 1])]));
        }
    }
    Some(json!(["list", epoch?, traces, progs]))
}

fn spell(rng: &mut Rng, name: &str) -> String {
    match name.strip_prefix("iota:") { Some(n) => match rng.below(3) { 0 => format!("iota: {n}"), 1 => format!("iota:0{n}"), _ => name.into() }, None => name.into() }
}

/// Runs the commands on every worker; returns the events.
fn run(workers: usize, acts: &[Act], spelled: Vec<String>) -> Vec<Value> {
    let config = crate::common::machine(workers, acts.len());
    let todo = acts.to_vec();
    let text = printed(move || {
        let guards = timely::execute(config, move |worker| {
            let mut server = Server::new();
            let me = worker.index();
            for (j, a) in todo.iter().enumerate() {
                let sp = &spelled[j];
                if me == 0 { println!("@@{j}"); }
                let r = match a {
                    Act::Install(n, _, p) => server.install(worker, n, p),
                    Act::Feed(w, _, i, (k, v), t, _, d) => if *w == me { let r = server.feed(sp, *i, k.clone(), v.clone(), *t, *d); println!("@@{} {j}", if r.is_ok() { "ok" } else { "no" }); continue; } else { continue },
                    Act::Drop(_) => server.drop_program(worker, sp),
                    Act::Tick => { server.tick(worker); Ok(()) }
                    Act::Peek(_, k) => server.peek(worker, sp, k.clone()),
                    Act::List => { if me == 0 { server.list(); } Ok(()) }
                };
                if me == 0 { println!("@@{} {j}", if r.is_ok() { "ok" } else { "no" }); }
            }
            if me == 0 { println!("@@end"); }
        }).unwrap();
        for r in guards.join() { r.unwrap(); }
    });
    // Answers to feeds of other workers come out of line.
    let mut out: Vec<Option<Vec<&str>>> = vec![None; acts.len()];
    let (mut oks, mut cur, mut ended) = (vec![None; acts.len()], usize::MAX, false);
    for l in text.lines() {
        match l.strip_prefix("@@") {
            Some("end") => ended = true,
            Some("crash") => {}
            Some(x) if x.starts_with("ok ") || x.starts_with("no ") => oks[x[3..].parse::<usize>().unwrap()] = Some(x.starts_with("ok")),
            Some(j) => { cur = j.parse().unwrap(); out[cur] = Some(vec![]); }
            None => if cur < acts.len() { out[cur].as_mut().unwrap().push(l) },
        }
    }
    let mut ev = Vec::new();
    for (j, a) in acts.iter().enumerate() {
        let Some(lines) = &out[j] else { break };
        let Some(ok) = oks[j] else { break };
        ev.push(match a {
            Act::Install(n, p, _) => json!(["install", n, p, ok]),
            Act::Feed(_, p, i, (k, v), _, t, d) => json!(["feed", p, i, [vj(k), vj(v)], t, d, ok]),
            Act::Drop(n) => json!(["drop", n, ok]),
            Act::Tick => json!(["tick"]),
            Act::Peek(x, k) => json!(["peek", x, k.iter().map(vj).collect::<Vec<_>>(), ok, lines.iter().filter(|l| l.starts_with("  (")).map(|l| row(l)).collect::<Vec<_>>()]),
            Act::List => listing(lines).unwrap_or(json!(["list", "unreadable", lines])),
        });
    }
    if !ended { ev.push(json!(["crash"])); }
    ev
}

fn renamed(prog: &Value, to: &BTreeMap<String, String>) -> Value {
    json!(arr(prog).iter().map(|st| if st[0] == "export" { json!(["export", to[s(&st[1])], st[2]]) } else { st.clone() }).collect::<Vec<_>>())
}
fn mentions(v: &Value, op: &str, out: &mut Vec<Value>) {
    if let Value::Array(a) = v {
        if a.len() == 2 && a[0] == op && (a[1].is_u64() || a[1].is_string()) { if !out.contains(&a[1]) { out.push(a[1].clone()); } }
        else { for x in a { mentions(x, op, out); } }
    }
}
fn keyed(rng: &mut Rng, arity: usize) -> V { V::Tuple((0..arity).map(|_| V::Int(rng.below(3) as i64)).collect()) }

const NAMES: &[&str] = &["p", "q", "r", "s", "u"];
const EXPORTS: &[&str] = &["a", "b", "c", "d", "e", "f", "g"];
const SOURCES: &[&str] = &["clock", "iota:0", "iota:1", "iota:3", "iota:5"];

/// What the generator believes to be installed, so that most commands succeed.
#[derive(Clone, Default)]
struct Known { progs: BTreeMap<String, (Vec<String>, Vec<String>, Vec<(usize, usize, usize)>)>, traces: BTreeMap<String, Ent> }

pub fn family_server(i: usize, rng: &mut Rng, script: Option<&Value>) -> Value {
    let workers = if i % 4 == 3 { 2 } else { 1 };
    let mut acts: Vec<Act> = Vec::new();
    if let Some(sched) = script {
        for c in arr(sched) {
            let mode = format!("{}{}{}", if rng.chance(2, 3) { "p" } else { "a" }, if rng.chance(2, 3) { "o" } else { "-" }, rng.below(1000));
            acts.push(match s(&c[0]) {
                "install" => Act::Install(s(&c[1]).into(), c[2].clone(), compile(&c[2], &mode)),
                "feed" => Act::Feed(rng.below(workers) as usize, s(&c[1]).into(), n(&c[2]) as usize, (V::Tuple(vec![V::Int(n(&c[3]))]), V::Tuple(vec![V::Int(n(&c[4]))])), Some(n(&c[5]) as u64), n(&c[5]) as u64, n(&c[6])),
                "drop" => Act::Drop(s(&c[1]).into()),
                "tick" => Act::Tick,
                "peek" => Act::Peek(s(&c[1]).into(), None),
                x => panic!("command {x}"),
            });
            if rng.chance(1, 6) { acts.push(Act::List); }
        }
        acts.push(Act::List);
    } else {
        let mut epoch = 0u64;
        let mut known = Known::default();
        let len = 12 + rng.below(24);
        // what feeds are likely to touch again
        let mut rows: Vec<(String, usize, (V, V))> = Vec::new();
        for _ in 0..len {
            match rng.below(16) {
                0..=3 => { // install
                    let name: String = if rng.chance(1, 12) { rng.pick(SOURCES).to_string() } else { rng.pick(NAMES).to_string() };
                    let nin = rng.below(3) as usize;
                    let mut sources = Vec::new();
                    let mut kinds = Vec::new();
                    for j in 0..nin {
                        let (a, b) = if rng.chance(2, 3) { (2, 0) } else { (1, 1) };
                        sources.push(Ent::of(json!(["input", j]), Ty::Tup(vec![Ty::Int; a]), Ty::Tup(vec![Ty::Int; b])));
                        kinds.push((j, a, b));
                    }
                    let mut refused = known.progs.contains_key(&name) || SOURCES.contains(&name.as_str());
                    for (x, e) in &known.traces { if rng.chance(1, 2) { sources.push(Ent { e: json!(["import", x]), ..e.clone() }); } }
                    let mut fresh = None;
                    if rng.chance(1, 4) || sources.is_empty() {
                        let x = *rng.pick(SOURCES);
                        if !known.traces.contains_key(x) { fresh = Some(x.to_string()); }
                        sources.push(Ent::of(json!(["import", x]), Ty::Tup(vec![Ty::Int]), Ty::Tup(vec![])));
                    }
                    rng.shuffle(&mut sources);
                    let (mut prog, outs) = IGen::over(rng, sources, false).program();
                    let mut to = BTreeMap::new();
                    let mut free: Vec<&str> = EXPORTS.iter().copied().filter(|x| rng.chance(1, 10) || !known.traces.contains_key(*x)).collect();
                    if free.len() < outs.len() { free = EXPORTS.to_vec(); }
                    rng.shuffle(&mut free);
                    for (j, (o, _)) in outs.iter().enumerate() { to.insert(o.clone(), free[j].to_string()); }
                    prog = renamed(&prog, &to);
                    let mut imports = Vec::new();
                    mentions(&prog, "import", &mut imports);
                    let mut imports: Vec<String> = imports.iter().map(|x| s(x).to_string()).collect();
                    refused |= to.values().any(|x| known.traces.contains_key(x));
                    // A program that imports what is not there, or what it is to publish itself.
                    if rng.chance(1, 15) && fresh.is_none() {
                        let missing: Vec<&str> = EXPORTS.iter().copied().filter(|x| !known.traces.contains_key(*x)).collect();
                        if !missing.is_empty() { let x = rng.pick(&missing).to_string(); if let Value::Array(a) = &mut prog { a.push(json!(["let", "missing", ["import", x]])); } imports.push(x); refused = true; }
                    }
                    // What is refused brings no source of its own.
                    if refused && fresh.as_ref().is_some_and(|f| imports.contains(f)) { continue; }
                    let mut ins = Vec::new();
                    mentions(&prog, "input", &mut ins);
                    if !refused {
                        for x in &imports { if SOURCES.contains(&x.as_str()) && !known.traces.contains_key(x) {
                            known.traces.insert(x.clone(), Ent::of(json!(0), Ty::Tup(vec![Ty::Int]), Ty::Tup(vec![])));
                            known.progs.insert(x.clone(), (vec![], vec![x.clone()], vec![]));
                        } }
                        for (o, e) in &outs { known.traces.insert(to[o].clone(), e.plain()); }
                        kinds.retain(|k| ins.contains(&json!(k.0)));
                        known.progs.insert(name.clone(), (imports, to.values().cloned().collect(), kinds));
                    }
                    let mode = format!("{}{}{}", if rng.chance(2, 3) { "p" } else { "a" }, if rng.chance(2, 3) { "o" } else { "-" }, rng.below(1000));
                    // sources may be spelled otherwise
                    let mut said = prog.clone();
                    if rng.chance(1, 3) { let k = rng.below(3); respell(&mut said, k); }
                    let compiled = compile(&said, &mode);
                    acts.push(Act::Install(name, prog, compiled));
                }
                4..=9 => { // feed
                    let writable: Vec<String> = known.progs.iter().filter(|p| !p.1.2.is_empty()).map(|p| p.0.clone()).collect();
                    for _ in 0..1 + rng.below(4) {
                        let bad = rng.chance(1, 20);
                        let p = if writable.is_empty() || bad { if rng.chance(1, 2) { rng.pick(SOURCES).to_string() } else { rng.pick(NAMES).to_string() } } else { rng.pick(&writable).clone() };
                        let (j, a, b) = match known.progs.get(&p) { Some(x) if !x.2.is_empty() && !bad => *rng.pick(&x.2), Some(x) if rng.chance(1, 2) => (x.2.len() + 2, 1, 1), _ => (0, 1, 1) };
                        if known.progs.get(&p).is_some_and(|x| x.2.iter().any(|k| k.0 == j && (k.1, k.2) != (a, b))) { continue; }
                        let again: Vec<(V, V)> = rows.iter().filter(|r| r.0 == p && r.1 == j).map(|r| r.2.clone()).collect();
                        let d = if !again.is_empty() && rng.chance(1, 2) { -1 } else { 1 + rng.below(2) as i64 };
                        let r = if d < 0 { rng.pick(&again).clone() } else { (keyed(rng, a), keyed(rng, b)) };
                        if known.progs.get(&p).is_some_and(|x| x.2.iter().any(|k| k.0 == j)) { rows.push((p.clone(), j, r.clone())); }
                        let t = match rng.below(8) { 0 if epoch > 0 => Some(rng.below(epoch)), 1 | 2 => Some(epoch + 1 + rng.below(2)), 3 => Some(epoch), _ => None };
                        acts.push(Act::Feed(rng.below(workers) as usize, p, j, r, t, t.unwrap_or(epoch), d));
                    }
                }
                10 | 11 => { acts.push(Act::Tick); epoch += 1; }
                12 => { // drop
                    let names: Vec<String> = known.progs.keys().cloned().collect();
                    let p = if names.is_empty() || rng.chance(1, 10) { rng.pick(NAMES).to_string() } else { rng.pick(&names).clone() };
                    if let Some(x) = known.progs.get(&p) {
                        if !known.progs.values().any(|y| y.0.iter().any(|t| x.1.contains(t))) {
                            for t in x.1.clone() { known.traces.remove(&t); }
                            known.progs.remove(&p);
                            rows.retain(|r| r.0 != p);
                        }
                    }
                    acts.push(Act::Drop(p));
                }
                13 => acts.push(Act::List),
                _ => {
                    let names: Vec<String> = known.traces.keys().cloned().collect();
                    for _ in 0..1 + rng.below(2) {
                        let x = if names.is_empty() || rng.chance(1, 15) { rng.pick(EXPORTS).to_string() } else { rng.pick(&names).clone() };
                        let key = if rng.chance(1, 3) { let a = rng.below(3) as usize; Some(keyed(rng, a)) } else { None };
                        acts.push(Act::Peek(x, key));
                    }
                }
            }
        }
        for _ in 0..1 + rng.below(2) {
            acts.push(Act::Tick);
            for x in known.traces.keys() { acts.push(Act::Peek(x.clone(), None)); }
        }
        acts.push(Act::List);
    }
    if std::env::var("DDV_LOUD").is_ok() { for (j, a) in acts.iter().enumerate() { eprintln!("ACT {j} {}", match a { Act::Install(n, ..) => format!("install {n}"), Act::Feed(w, p, i, r, t, _, d) => format!("feed {w} {p} {i} {r:?} {t:?} {d}"), Act::Drop(p) => format!("drop {p}"), Act::Tick => "tick".into(), Act::Peek(x, _) => format!("peek {x}"), Act::List => "list".into() }); } }
    let spelled = acts.iter().map(|a| match a { Act::Feed(_, p, ..) | Act::Drop(p) | Act::Peek(p, _) => spell(rng, p), _ => String::new() }).collect();
    json!({"workers": workers, "ev": run(workers as usize, &acts, spelled)})
}

fn respell(v: &mut Value, how: u64) {
    if let Value::Array(a) = v {
        if a.len() == 2 && a[0] == "import" {
            if let Some(x) = a[1].as_str().and_then(|x| x.strip_prefix("iota:")) { a[1] = json!(if how == 0 { format!("iota: {x}") } else { format!("iota:0{x}") }); }
        } else { for x in a { respell(x, how); } }
    }
}
