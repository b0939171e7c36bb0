//! Joins assembled from delta-query operators.
use differential_dataflow::operators::arrange::TraceAgent;
use differential_dataflow::trace::implementations::ValSpine;
use differential_dataflow::AsCollection;
use differential_dogs3::altneu::AltNeu;
use differential_dogs3::calculus::{Differentiate, Integrate};
use differential_dogs3::operators::{half_join, half_join2, propose, propose_distinct, validate};
use differential_dogs3::{CollectionIndex, ProposeExtensionMethod};
use serde_json::Value;
use differential_dataflow::operators::arrange::Arranged;
use timely::container::{CapacityContainerBuilder, PushInto};
use timely::dataflow::operators::vec::Map;
use timely::dataflow::Scope;
use timely::progress::Antichain;

use crate::common::*;
use crate::prog::*;
use crate::variants::{by_key, Top};

fn back<T: Top>(t: &T, f: &mut Antichain<T>) { f.insert(t.prior()); }
type VTrace<T> = TraceAgent<ValSpine<i64, i64, T, isize>>;
#[allow(unused)] type V<T> = VTrace<T>;

/// A half join that yields once it has matched anything.
fn yielding<'s, T: Top>(two: bool, a: differential_dataflow::VecCollection<'s, T, (i64, i64, T), isize>, b: Arranged<'s, VTrace<T>>, cmp: impl Fn(&T, &T) -> bool + 'static, swap: bool, f: String) -> differential_dataflow::VecCollection<'s, T, (Row, T), isize> {
    type CB<T> = CapacityContainerBuilder<Vec<((Row, T), T, isize)>>;
    let limit = 1 + f.len() % 2;
    let pair = move |k: &i64, v: &i64, w: &i64| if swap { f_join(&f, *k, *w, *v) } else { f_join(&f, *k, *v, *w) };
    if two {
        differential_dogs3::operators::half_join2::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, CB<T>>(a, b, back::<T>, cmp, move |_, n| n >= limit,
            move |builder: &mut CB<T>, k: &i64, v: &i64, w: &i64, initial: &T, d: &isize, out: &mut Vec<(T, isize)>| {
                for (t, e) in out.drain(..) { builder.push_into(((pair(k, v, w), t), initial.clone(), d * e)); }
            }).as_collection()
    } else {
        differential_dogs3::operators::half_join::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, CB<T>>(a, b, back::<T>, cmp, move |_, n| n >= limit,
            move |session, k: &i64, v: &i64, w: &i64, initial: &T, d: &isize, out: &mut Vec<(T, isize)>| {
                for (t, e) in out.drain(..) { session.give(((pair(k, v, w), t), initial.clone(), d * e)); }
            }).as_collection()
    }
}

pub fn variant<'s, T: Top>(scope: Scope<'s, T>, env: &Env<'s, T>, which: &str, e: &Value) -> Coll<'s, T> {
    let sub = |i: usize| build(scope, env, &e[i]);
    let stamped = |c: Coll<'s, T>| c.inner.map(|((k, v), t, r)| ((k, v, t.clone()), t, r)).as_collection();
    let unstamp = |c: differential_dataflow::VecCollection<'s, T, (Row, T), isize>| c.inner.map(|((d, t), _, r)| (d, t, r)).as_collection();
    let f = e[1].as_str().unwrap_or("").to_string();
    match (e[0].as_str().unwrap(), which) {
        ("join", "dogs_half") => {
            let (a, b) = (sub(2), sub(3));
            let (aa, ba) = (by_key(a.clone()), by_key(b.clone()));
            let (f1, f2) = (f.clone(), f);
            let p1 = half_join(stamped(a), ba, back::<T>, |s, t| s < t, move |k, v, w| f_join(&f1, *k, *v, *w));
            let p2 = half_join(stamped(b), aa, back::<T>, |s, t| s <= t, move |k, w, v| f_join(&f2, *k, *v, *w));
            unstamp(p1).concat(unstamp(p2))
        }
        ("join", "dogs_half2") => {
            let (a, b) = (sub(2), sub(3));
            let (aa, ba) = (by_key(a.clone()), by_key(b.clone()));
            let (f1, f2) = (f.clone(), f);
            let p1 = half_join2(stamped(a), ba, back::<T>, |s, t| s < t, move |k, v, w| f_join(&f1, *k, *v, *w));
            let p2 = half_join2(stamped(b), aa, back::<T>, |s, t| s <= t, move |k, w, v| f_join(&f2, *k, *v, *w));
            unstamp(p1).concat(unstamp(p2))
        }
        // The same, by operators that stop to let others run after every match or few.
        ("join", "dogs_yield" | "dogs_yield2") => {
            let (a, b) = (sub(2), sub(3));
            let (aa, ba) = (by_key(a.clone()), by_key(b.clone()));
            let two = which == "dogs_yield2";
            let p1 = yielding(two, stamped(a), ba, |s, t| s < t, false, f.clone());
            let p2 = yielding(two, stamped(b), aa, |s, t| s <= t, true, f);
            unstamp(p1).concat(unstamp(p2))
        }
        ("halflt" | "halfle", "dogs_yield" | "dogs_yield2") => {
            let (a, b) = (sub(2), sub(3));
            let strict = e[0] == "halflt";
            unstamp(yielding(which == "dogs_yield2", stamped(a), by_key(b), move |s: &T, t: &T| if strict { s < t } else { s <= t }, false, f))
        }
        // Old and new times: total orders only.
        ("join", "dogs_alt") => {
            let (a, b) = (sub(2), sub(3));
            let (aa, ba) = (by_key(a.clone()), by_key(b.clone()));
            scope.scoped::<AltNeu<T>, _, _>("Delta", |inner| {
                let a_alt = aa.enter_at(inner, |_, _, t| AltNeu::alt(t.clone()), |t: &AltNeu<T>| t.time.prior());
                let b_neu = ba.enter_at(inner, |_, _, t| AltNeu::neu(t.clone()), |t: &AltNeu<T>| t.time.prior());
                let (f1, f2) = (f.clone(), f);
                let p1 = propose(a.enter(inner), b_neu, |x: &Row| x.0).map(move |((k, v), w)| f_join(&f1, k, v, w));
                let p2 = propose(b.enter(inner), a_alt, |x: &Row| x.0).map(move |((k, w), v)| f_join(&f2, k, v, w));
                p1.concat(p2).leave(scope)
            })
        }
        ("join", "dogs_diff") => {
            let (a, b) = (sub(2), sub(3));
            let (aa, ba) = (by_key(a.clone()), by_key(b.clone()));
            scope.scoped::<AltNeu<T>, _, _>("Delta", |inner| {
                let a_alt = aa.enter_at(inner, |_, _, t| AltNeu::alt(t.clone()), |t: &AltNeu<T>| t.time.prior());
                let b_neu = ba.enter_at(inner, |_, _, t| AltNeu::neu(t.clone()), |t: &AltNeu<T>| t.time.prior());
                let (f1, f2) = (f.clone(), f);
                let p1 = a.differentiate(inner).arrange_by_key().join_core(b_neu, move |k, v, w| Some(f_join(&f1, *k, *v, *w)));
                let p2 = b.differentiate(inner).arrange_by_key().join_core(a_alt, move |k, w, v| Some(f_join(&f2, *k, *v, *w)));
                p1.concat(p2).integrate(scope)
            })
        }
        // Each update of the first is matched with the second as of its time.
        ("lookup", "dogs_lookup") => {
            let (a, b) = (sub(2), sub(3));
            propose(a, by_key(b), |x: &Row| x.0).map(move |((k, v), w)| f_join(&f, k, v, w))
        }
        ("lookup1", "dogs_lookup") => {
            let (a, b) = (sub(2), sub(3));
            propose_distinct(a, by_key(b), |x: &Row| x.0).map(move |((k, v), w)| f_join(&f, k, v, w))
        }
        // Each update of the first is matched with updates of the second at strictly lesser (total order) times.
        ("halflt", w) | ("halfle", w) => {
            let (a, b) = (sub(2), sub(3));
            let ba = by_key(b);
            let strict = e[0] == "halflt";
            let cmp = move |s: &T, t: &T| if strict { s < t } else { s <= t };
            let out = move |k: &i64, v: &i64, w: &i64| f_join(&f, *k, *v, *w);
            if w == "dogs_half" { unstamp(half_join(stamped(a), ba, back::<T>, cmp, out)) } else { unstamp(half_join2(stamped(a), ba, back::<T>, cmp, out)) }
        }
        // Triangles Q(a,b,c) := E1(a,b), E2(b,c), E3(a,c), with multiplicities zero or one.
        ("tri", "dogs_wco") => {
            let (e1, e2, e3) = (sub(1), sub(2), sub(3));
            scope.scoped::<AltNeu<T>, _, _>("Delta", |inner| {
                let (e1, e2, e3) = (e1.enter(inner), e2.enter(inner), e3.enter(inner));


                let neu = |t: &AltNeu<T>| AltNeu::neu(t.time.clone());
                let r1 = e1.clone().map(|(x, y)| (y, x));
                let r2 = e2.clone().map(|(x, y)| (y, x));

                let r3 = e3.clone().map(|(x, y)| (y, x));
                let e1_alt = CollectionIndex::index(e1.clone());
                let r1_alt = CollectionIndex::index(r1.clone());
                let r2_alt = CollectionIndex::index(r2.clone());
                let e2_neu = CollectionIndex::index(e2.clone().delay(neu));
                let e3_neu = CollectionIndex::index(e3.clone().delay(neu));
                let r3_neu = CollectionIndex::index(r3.clone().delay(neu));
                let c1 = e1.extend(&mut [&mut e2_neu.extend_using(|(_a, b): &Row| *b), &mut e3_neu.extend_using(|(a, _b): &Row| *a)]).map(|((a, b), c)| (a, b, c));
                let c2 = e2.extend(&mut [&mut r1_alt.extend_using(|(b, _c): &Row| *b), &mut r3_neu.extend_using(|(_b, c): &Row| *c)]).map(|((b, c), a)| (a, b, c));
                let c3 = e3.extend(&mut [&mut e1_alt.extend_using(|(a, _c): &Row| *a), &mut r2_alt.extend_using(|(_a, c): &Row| *c)]).map(|((a, c), b)| (a, b, c));
                c1.concat(c2).concat(c3).map(|(a, b, c)| (a, b * 10 + c)).leave(scope)
            })
        }
        ("tri", "dogs_prop") => {
            let (e1, e2, e3) = (sub(1), sub(2), sub(3));
            let key = |c: &Coll<'s, T>| by_key(c.clone());
            let rev = |c: &Coll<'s, T>| by_key(c.clone().map(|(x, y)| (y, x)));
            let slf = |c: &Coll<'s, T>| c.clone().arrange_by_self_named("Self");
            let rsf = |c: &Coll<'s, T>| c.clone().map(|(x, y)| (y, x)).arrange_by_self_named("Self");
            let (k1, rv1, k2, _k3, s3, rs3, rs2) = (key(&e1), rev(&e1), key(&e2), key(&e3), slf(&e3), rsf(&e3), rsf(&e2));
            scope.scoped::<AltNeu<T>, _, _>("Delta", |inner| {
                macro_rules! alt { ($a:expr) => { $a.clone().enter_at(inner, |_, _, t| AltNeu::alt(t.clone()), |t: &AltNeu<T>| t.time.prior()) } }
                macro_rules! neu { ($a:expr) => { $a.clone().enter_at(inner, |_, _, t| AltNeu::neu(t.clone()), |t: &AltNeu<T>| t.time.prior()) } }
                let c1 = propose(e1.enter(inner), neu!(k2), |x: &Row| x.1);
                let c1 = validate(c1, neu!(s3), |x: &Row| x.0).map(|((a, b), c)| (a, b, c));
                let c2 = propose(e2.enter(inner), alt!(rv1), |x: &Row| x.0);
                let c2 = validate(c2, neu!(rs3), |x: &Row| x.1).map(|((b, c), a)| (a, b, c));
                let c3 = propose(e3.enter(inner), alt!(k1), |x: &Row| x.0);
                let c3 = validate(c3, alt!(rs2), |x: &Row| x.1).map(|((a, c), b)| (a, b, c));
                c1.concat(c2).concat(c3).map(|(a, b, c)| (a, b * 10 + c)).leave(scope)
            })
        }
        x => panic!("variant {x:?}"),
    }
}
