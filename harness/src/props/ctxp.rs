//! C21: merging of prediction contexts (graph-structured stacks) and combination of predicates.
use crate::engine::*;
use crate::ensure;
use crate::Prop;
use antlr_rust::semantic_context::SemanticContext;
#[cfg(feature = "ctx")]
use antlr_rust::vh_hooks::{MurmurHasherBuilder, PredictionContext, PREDICTION_CONTEXT_EMPTY_RETURN_STATE as EMPTY};
#[cfg(feature = "ctx")]
use antlr_rust::PredictionContextCache;
#[cfg(feature = "ctx")]
use std::collections::{BTreeSet, HashMap};
#[cfg(feature = "ctx")]
use std::hash::{BuildHasher, Hash, Hasher};
#[cfg(feature = "ctx")]
use std::sync::Arc;

#[cfg(feature = "ctx")]
mod stacks {
use super::*;
type Pc = Arc<PredictionContext>;
type Stacks = BTreeSet<Vec<isize>>;
type Cache = HashMap<(Pc, Pc), Pc, MurmurHasherBuilder>;

/// all stacks a context stands for, top first; `$` is the end of a stack
fn denote(c: &PredictionContext) -> Result<Stacks, Fail> {
    let mut o = Stacks::new();
    let n = c.length();
    ensure!(n > 0, "context without return states");
    let mut last = None;
    for i in 0..n {
        let r = c.get_return_state(i);
        ensure!(last.map_or(true, |l| l < r), "return states not strictly ascending: {} entry {}", c, i);
        last = Some(r);
        match c.get_parent(i) {
            None => {
                ensure!(r == EMPTY, "entry {} of {} has no parent", i, c);
                o.insert(vec![]);
            }
            Some(p) => {
                ensure!(r != EMPTY, "empty entry {} of {} has a parent", i, c);
                for s in denote(p)? {
                    let mut v = vec![r];
                    v.extend(s);
                    o.insert(v);
                }
            }
        }
    }
    Ok(o)
}

/// with a wildcard at the bottom, a stack covers all its extensions
fn minimal(s: &Stacks) -> Stacks {
    s.iter().filter(|x| !s.iter().any(|y| y.len() < x.len() && x.starts_with(y))).cloned().collect()
}

fn h(c: &Pc) -> u64 {
    let mut x = MurmurHasherBuilder {}.build_hasher();
    c.hash(&mut x);
    x.finish()
}

pub fn c21_stacks(s: &mut Src, st: &mut Stats) -> Check {
    let wild = s.chance(1, 2);
    let mut cache: Cache = HashMap::with_hasher(MurmurHasherBuilder {});
    let shared = PredictionContextCache::new();
    let mut pool: Vec<(Pc, Stacks)> = vec![];
    let mut log: Vec<String> = vec![];
    let empty: Stacks = [vec![]].into_iter().collect();
    pool.push((Arc::new(PredictionContext::new_empty()), empty));
    let nops = s.len(2, 18);
    let mut merged = 0;
    let nrs = s.range(2, 4);
    for _ in 0..nops {
        let r = (|| -> Check {
            match s.weighted(&[5, 6, 1]) {
                0 => {
                    let i = s.draw(pool.len());
                    let rs = 1 + s.draw(nrs) as isize;
                    log.push(format!("{} = push({}, {})", pool.len(), rs, i));
                    let p = pool[i].0.clone();
                    let c = guarded("new_singleton", || PredictionContext::new_singleton(Some(p), rs).alloc())?;
                    let d: Stacks = pool[i].1.iter().map(|x| { let mut v = vec![rs]; v.extend(x); v }).collect();
                    pool.push((c, d));
                }
                1 => {
                    let (i, j) = (s.draw(pool.len()), s.draw(pool.len()));
                    let use_cache = s.chance(2, 3);
                    log.push(format!("{} = merge({}, {}{})", pool.len(), i, j, if use_cache { ", cached" } else { "" }));
                    let (a, b) = (pool[i].0.clone(), pool[j].0.clone());
                    let c = guarded("merge", || {
                        let mut m = if use_cache { Some(&mut cache) } else { None };
                        PredictionContext::merge(&a, &b, wild, &mut m)
                    })?;
                    let mut d = pool[i].1.clone();
                    d.extend(pool[j].1.iter().cloned());
                    if wild {
                        d = minimal(&d);
                    }
                    if pool[i].1 != pool[j].1 {
                        merged += 1;
                    }
                    let e = guarded("merge", || PredictionContext::merge(&b, &a, wild, &mut None))?;
                    ensure!(e == c && h(&e) == h(&c), "merge({}, {}) is {} but the other way round {}", a, b, c, e);
                    pool.push((c, d));
                }
                _ => {
                    let i = s.draw(pool.len());
                    log.push(format!("{} = shared({})", pool.len(), i));
                    let a = pool[i].0.clone();
                    let c = guarded("get_shared_context", || shared.get_shared_context(&a, &mut HashMap::new()))?;
                    ensure!(c == a && h(&c) == h(&a), "the shared form of {} is {}", a, c);
                    let e = guarded("get_shared_context", || shared.get_shared_context(&c, &mut HashMap::new()))?;
                    ensure!(e == c, "sharing {} again gives {}", c, e);
                    let d = pool[i].1.clone();
                    pool.push((c, d));
                }
            }
            let (c, d) = pool.last().unwrap();
            let got = denote(c)?;
            ensure!(got == *d, "{} stands for the stacks {:?}, should be {:?}", c, got, d);
            ensure!(c.is_empty() == (d.len() == 1 && d.contains(&vec![])), "is_empty of {} is {}", c, c.is_empty());
            ensure!(c.has_empty_path() == d.contains(&vec![]), "has_empty_path of {} is {}", c, c.has_empty_path());
            for (i, (o, od)) in pool.iter().enumerate() {
                ensure!((o == c) == (od == d), "contexts {} ({}) and the last one ({}) compare {} but stand for {:?} and {:?}", i, o, c, o == c, od, d);
                ensure!(o != c || h(o) == h(c), "equal contexts {} and {} hash differently", o, c);
            }
            Ok(())
        })();
        if let Err(e) = r {
            return fail(format!("{} mode, 0 = $; {}\n{}", if wild { "local (wildcard)" } else { "full context" }, log.join("; "), e.msg));
        }
        if pool.last().unwrap().1.len() > 40 {
            break;
        }
    }
    st.class(if wild { "wildcard merges" } else { "full-context merges" });
    if merged >= 2 && pool.iter().any(|x| x.1.len() >= 2) {
        let d = format!("{} {}", if wild { "wildcard" } else { "full" }, log.join("; "));
        st.nontrivial(&d);
        st.sample(|| d.clone());
    }
    Ok(())
}

}

fn ev(c: &SemanticContext, preds: u32, prec: isize) -> bool {
    match c {
        SemanticContext::Predicate { rule_index: -1, pred_index: -1, .. } => true,
        SemanticContext::Predicate { pred_index, .. } => preds >> pred_index & 1 == 1,
        // precpred(p) holds when the rule was entered with a precedence of at most p
        SemanticContext::Precedence(p) => *p >= prec,
        SemanticContext::AND(v) => v.iter().all(|x| ev(x, preds, prec)),
        SemanticContext::OR(v) => v.iter().any(|x| ev(x, preds, prec)),
    }
}
fn table(c: &SemanticContext) -> Vec<bool> {
    let mut o = vec![];
    for preds in 0..8 {
        for prec in 0..5 {
            o.push(ev(c, preds, prec));
        }
    }
    o
}

fn c21_sem(s: &mut Src, st: &mut Stats) -> Check {
    let mut pool: Vec<SemanticContext> = vec![SemanticContext::NONE];
    let mut tabs: Vec<Vec<bool>> = vec![vec![true; 40]];
    for i in 0..3 {
        pool.push(SemanticContext::Predicate { rule_index: 0, pred_index: i, is_ctx_dependent: i == 1 });
    }
    for p in 1..4 {
        pool.push(SemanticContext::Precedence(p));
    }
    for c in &pool[1..] {
        tabs.push(table(c));
    }
    let mut log = vec![];
    for _ in 0..s.len(1, 8) {
        let (i, j) = (s.draw(pool.len()), s.draw(pool.len()));
        let and = s.chance(1, 2);
        let (a, b) = (pool[i].clone(), pool[j].clone());
        log.push(format!("{} = {}({}, {})", pool.len(), if and { "and" } else { "or" }, i, j));
        let f = |a: &SemanticContext, b: &SemanticContext| if and { SemanticContext::and(Some(a), Some(b)) } else { SemanticContext::or(Some(a), Some(b)) };
        let c = guarded("combine", || f(&a, &b))?;
        let d = guarded("combine", || f(&b, &a))?;
        let want: Vec<bool> = tabs[i].iter().zip(&tabs[j]).map(|(x, y)| if and { *x && *y } else { *x || *y }).collect();
        let msg = || format!("{} of {:?} and {:?} is {:?}", if and { "and" } else { "or" }, a, b, c);
        ensure!(table(&c) == want, "{}, which means something else", msg());
        ensure!(c == d, "{} but the other way round {:?}", msg(), d);
        if i == j {
            ensure!(table(&c) == tabs[i], "{}", msg());
        }
        pool.push(c);
        tabs.push(want);
    }
    let one = SemanticContext::and(Some(&pool[1]), None::<&SemanticContext>);
    ensure!(one == pool[1], "and with nothing changed {:?} to {:?}", pool[1], one);
    st.class("predicate combinations");
    if log.len() >= 2 {
        st.nontrivial(&log.join("; "));
    }
    Ok(())
}

fn c21(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(1, 5) {
        return c21_sem(s, st);
    }
    #[cfg(feature = "ctx")]
    return stacks::c21_stacks(s, st);
    // the internals changed shape: only what is reachable without them is checked
    #[cfg(not(feature = "ctx"))]
    return c21_sem(s, st);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        rule: "a case is a sequence of up to 18 operations (push, merge with and without merge cache, get_shared_context) on prediction contexts, every result compared with explicit sets of stacks and with all earlier results for equality and hash, or up to 8 and/or combinations of predicates compared by truth table; non-trivial: two merges of different contexts and a context with two stacks, or two combinations",
        f: c21,
        directed: None,
        quick: 4_000_000,
        thorough: 100_000_000,
        assumptions: &["contexts are built only by the operations prediction uses (empty, push, merge in one mode)"],
    }]
}
