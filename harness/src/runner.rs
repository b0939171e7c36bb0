//! The command line of every harness binary: records cases of a family as traces.
use crate::common::Rng;
use serde_json::Value;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

fn arg(name: &str) -> Option<String> {
    let args: Vec<String> = std::env::args().collect();
    args.iter().position(|a| a == name).map(|i| args[i + 1].clone())
}

/// A case generator and runner: index, randomness, and optional schedule generated from a specification.
pub type Case = fn(usize, &mut Rng, Option<&Value>) -> Value;

static STARTED: AtomicU64 = AtomicU64::new(0);
fn now() -> u64 { static ORIGIN: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new(); ORIGIN.get_or_init(std::time::Instant::now).elapsed().as_secs() }

/// Events in 32-bit range only: the specification's integers.
fn clamp(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(clamp),
        Value::Object(o) => o.values_mut().for_each(clamp),
        Value::Number(n) => {
            let lim = 2_000_000_000i64;
            let x = n.as_i64().unwrap_or(if n.as_u64().is_some() { lim } else { 0 });
            if x > lim || x < -lim { *v = Value::from(x.clamp(-lim, lim)); }
        }
        _ => {}
    }
}

pub fn main(families: &[(&'static str, Case)]) {
    let family = std::env::args().nth(1).expect("family");
    let seed: u64 = arg("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let from: usize = arg("--from").map(|s| s.parse().unwrap()).unwrap_or(0);
    let n: usize = arg("--n").map(|s| s.parse().unwrap()).unwrap_or(10);
    let out = arg("--out").expect("--out");
    let limit: u64 = arg("--limit").map(|s| s.parse().unwrap()).unwrap_or(90);
    let scripts: Option<Vec<Value>> = arg("--scripts").map(|f| serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap());
    let loud = std::env::var("DDV_LOUD").is_ok();
    if !loud { std::panic::set_hook(Box::new(|_| {})); }
    let case = match families.iter().find(|f| f.0 == family) { Some(f) => f.1, None => { eprintln!("unknown family {family}"); std::process::exit(2) } };
    // A case that does not end is reported by exiting: the runner finds it in the .cur file.
    STARTED.store(now(), Ordering::SeqCst);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        if now() > STARTED.load(Ordering::SeqCst) + limit { eprintln!("case exceeded {limit}s"); std::process::exit(99); }
    });
    let mut file = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    let cur = format!("{out}.cur");
    let base = seed ^ family.bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    for idx in from..from + n {
        STARTED.store(now(), Ordering::SeqCst);
        std::fs::write(&cur, format!("family {family} seed {seed} case {idx}")).unwrap();
        if loud { eprintln!("case {idx}"); }
        let mut rng = Rng::new(base.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(idx as u64));
        let script = scripts.as_ref().map(|s| &s[idx % s.len()]);
        let mut v = case(idx, &mut rng, script);
        v["id"] = Value::from(idx);
        clamp(&mut v);
        serde_json::to_writer(&mut file, &v).unwrap();
        file.write_all(b"\n").unwrap();
        file.flush().unwrap();
    }
    std::fs::remove_file(&cur).ok();
}
