//! The library's algorithms (spec/DDProg: Bfs, Bidijkstra, Propagate, Strong, InTurn, PrefixSum, Identified).
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use differential_dataflow::algorithms::graphs::{bfs, bijkstra, propagate, scc, sequential};
use differential_dataflow::algorithms::identifiers::Identifiers;
use differential_dataflow::algorithms::prefix_sum::PrefixSum;
use serde_json::Value;
use timely::dataflow::Scope;

use crate::common::*;
use crate::prog::*;
use crate::variants::Top;

/// A record whose hash distinguishes it only up to a number of classes.
#[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, serde::Serialize, serde::Deserialize)]
struct Weak { code: i64, classes: i64 }
impl std::hash::Hash for Weak { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.code % self.classes).hash(h) } }

/// Positions with gaps, in the order of the keys.
fn place(k: i64) -> usize { [0, 1, 2, 5, 6, 8, 11, 12][(k / 2) as usize % 8] }
fn unplace(p: usize) -> i64 { (0..8).find(|k| place(2 * k) == p).unwrap_or(99) }
fn level(l: &i64) -> u64 { (*l as u64 * 7) % 11 }

pub fn variant<'s, T: Top>(scope: Scope<'s, T>, env: &Env<'s, T>, which: &str, e: &Value) -> Coll<'s, T> {
    let n: u64 = which[3..].parse().unwrap();
    let sub = |i: usize| build(scope, env, &e[i]);
    match e[0].as_str().unwrap() {
        "bfs" => {
            let roots = sub(2).map(|(k, _)| k);
            (if n % 2 == 0 { bfs::bfs(sub(1), roots) } else { bfs::bfs_arranged(sub(1).arrange_by_key(), roots) }).map(|(n, d)| (n, d as i64))
        }
        "bidij" => {
            (if n % 2 == 0 { bijkstra::bidijkstra(sub(1), sub(2)) }
            else { bijkstra::bidijkstra_arranged(sub(1).arrange_by_key(), sub(1).map(|(x, y)| (y, x)).arrange_by_key(), sub(2)) }).map(|((a, b), d)| (a * 10 + b, d as i64))
        }
        "propag" => match n % 3 {
            0 => propagate::propagate(sub(1), sub(2)),
            1 => propagate::propagate_at(sub(1), sub(2), level),
            _ => propagate::propagate_core(sub(1).arrange_by_key(), sub(2), |l| 2 * level(l)),
        },
        "scc" => match n % 2 { 0 => scc::strongly_connected(sub(1)), _ => scc::strongly_connected_at(sub(1), level) },
        "seq" => sequential::sequence(sub(1), sub(2), |n, vals: &[(&i64, isize)]| (n + vals.iter().map(|(v, c)| **v * *c as i64).sum::<i64>()) % 7).map(|(n, v)| (n, v.unwrap_or(-1))),
        "psum" => {
            let vals = sub(1).map(|(k, v)| ((place(k), k % 2), (6i64, v)));
            let plus = |_: &i64, a: &(i64, i64), b: &(i64, i64)| (a.0 * b.0, a.1 * b.0 + b.1);
            let sums = if n % 2 == 0 && e[1] == e[2] { vals.prefix_sum((1, 0), plus) } else { vals.prefix_sum_at(sub(2).map(|(k, _)| (place(k), k % 2)), (1, 0), plus) };
            sums.map(|((p, k), (m, v))| (unplace(p) * 2 + k, m + v))
        }
        "ident" => {
            let classes = [1, 2, 3, 1000, 7, 5][n as usize % 6];
            // Identifiers as they first appear, which keeps them small.
            let ids: Arc<Mutex<HashMap<u64, i64>>> = env_ids();
            sub(1).map(move |(k, v)| Weak { code: k * 10 + v, classes }).identifiers().map(move |(w, id)| {
                let mut ids = ids.lock().unwrap();
                let next = ids.len() as i64;
                (w.code, *ids.entry(id).or_insert(next))
            })
        }
        x => panic!("algorithm {x}"),
    }
}
/// One numbering of identifiers for all workers.
fn env_ids() -> Arc<Mutex<HashMap<u64, i64>>> {
    static IDS: std::sync::OnceLock<Arc<Mutex<HashMap<u64, i64>>>> = std::sync::OnceLock::new();
    IDS.get_or_init(Default::default).clone()
}
