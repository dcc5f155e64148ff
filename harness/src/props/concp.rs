//! C11: recognizers of one grammar running at the same time.
//!
//! Three kinds of runs, each compared with every recognizer running alone over cold caches:
//! * baton: real threads, only one of which runs at a time; a drawn schedule says who goes on between
//!   predictions / tokens (deterministic, shrinks);
//! * free: threads started together, with drawn noise (yields, spins, short sleeps) at input accesses;
//! * nested: a recognizer started from an embedded action or listener of another one.
use super::lex;
use super::par::{describe, outcome, pred_str, diag_str, HEAVY};
use crate::engine::*;
use crate::ensure;
use crate::lexdrv::{diff, to_string, LexRun, Shared};
use crate::lexg::{self, LGram, LOpts};
use crate::pardrv::*;
use crate::parg::*;
use crate::Prop;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::Duration;

/// whole threaded runs take milliseconds
const STUCK: Duration = Duration::from_secs(60);
type Task<T> = Box<dyn FnOnce() -> T + Send>;

fn threads<T: Send + 'static>(tasks: Vec<Task<T>>) -> Result<Vec<T>, Fail> {
    let n = tasks.len();
    let (tx, rx) = channel();
    for (i, t) in tasks.into_iter().enumerate() {
        let tx = tx.clone();
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let r = t();
                set_hook(None);
                let _ = tx.send((i, r));
            })
            .expect("thread");
    }
    drop(tx);
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    for _ in 0..n {
        match rx.recv_timeout(STUCK) {
            Ok((i, r)) => out[i] = Some(r),
            Err(RecvTimeoutError::Timeout) => {
                let stuck: Vec<usize> = (0..n).filter(|i| out[*i].is_none()).collect();
                return fail(format!("deadlock: of {} recognizers, number(s) {:?} did not finish in {:?}", n, stuck, STUCK));
            }
            Err(RecvTimeoutError::Disconnected) => panic!("a harness thread died"),
        }
    }
    Ok(out.into_iter().map(|x| x.unwrap()).collect())
}

struct BState {
    turn: usize,
    done: Vec<bool>,
    sched: Vec<usize>,
    pos: usize,
    switches: usize,
}
struct Baton {
    m: Mutex<BState>,
    cv: Condvar,
}
impl Baton {
    fn new(n: usize, sched: Vec<usize>) -> Arc<Baton> {
        Arc::new(Baton { m: Mutex::new(BState { turn: 0, done: vec![false; n], sched, pos: 0, switches: 0 }), cv: Condvar::new() })
    }
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.turn != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn point(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        let k = g.pos;
        g.pos += 1;
        // 0 = stay; beyond the end of the schedule everybody runs to completion
        let d = g.sched.get(k).copied().unwrap_or(0);
        let n = g.done.len();
        let mut to = (me + d) % n;
        while g.done[to] {
            to = (to + 1) % n;
        }
        if to != me {
            g.switches += 1;
            g.turn = to;
            self.cv.notify_all();
            while g.turn != me {
                g = self.cv.wait(g).unwrap();
            }
        }
    }
    fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.done[me] = true;
        if let Some(i) = g.done.iter().position(|d| !d) {
            g.turn = i;
        }
        self.cv.notify_all();
    }
}

#[derive(Clone)]
struct PRes {
    outcome: String,
    preds: Vec<(usize, isize, isize)>,
    pred_str: String,
    diag: String,
    wrong: bool,
}
fn pres(o: &Out) -> PRes {
    PRes {
        outcome: outcome(o),
        preds: o.log.preds.borrow().clone(),
        pred_str: pred_str(o),
        diag: diag_str(o),
        wrong: o.err.is_some() || !o.log.errs.borrow().is_empty(),
    }
}
/// see par::fallback_parts
fn parts(a: &PRes, b: &PRes) -> bool {
    a.wrong && b.wrong
        && match a.preds.iter().zip(&b.preds).position(|(p, q)| p != q) {
            Some(i) => a.preds[i].0 == b.preds[i].0 && a.preds[i].1 == b.preds[i].1,
            None => false,
        }
}

/// something that can be run any number of times, by any thread, over given caches
trait Work: Send + Sync {
    type R: Send + Clone + 'static;
    fn run(&self, sh: &Shared, job: usize) -> Result<Self::R, Fail>;
    fn same(&self, job: usize, got: &Self::R, cold: &Self::R) -> Result<(), String>;
    fn describe(&self) -> String;
}

struct PWork {
    c: Compiled,
    jobs: Vec<(Vec<i32>, Opts)>,
}
impl Work for PWork {
    type R = PRes;
    fn run(&self, sh: &Shared, job: usize) -> Result<PRes, Fail> {
        let (w, o) = &self.jobs[job];
        let r = guarded("parse", || run(&self.c, sh, &plain_toks(w), o))?;
        Ok(pres(&r))
    }
    fn same(&self, job: usize, got: &PRes, cold: &PRes) -> Result<(), String> {
        if parts(got, cold) {
            return Ok(());
        }
        let w = show_toks(&self.jobs[job].0);
        if got.outcome != cold.outcome {
            return Err(format!("parse of {} gave\n{}alone it gives\n{}", w, got.outcome, cold.outcome));
        }
        if got.pred_str != cold.pred_str {
            return Err(format!("predictions for {}: {}\nalone: {}", w, got.pred_str, cold.pred_str));
        }
        if got.diag != cold.diag {
            return Err(format!("reports for {}:\n{}alone:\n{}", w, got.diag, cold.diag));
        }
        Ok(())
    }
    fn describe(&self) -> String {
        let j: Vec<String> = self.jobs.iter().map(|(w, o)| format!("[{}] mode {}", show_toks(w), o.mode)).collect();
        format!("grammar:\n{}recognizers: {}", show(&self.c.g), j.join("; "))
    }
}

struct LWork {
    g: LGram,
    jobs: Vec<Vec<i32>>,
}
impl Work for LWork {
    type R = LexRun;
    fn run(&self, sh: &Shared, job: usize) -> Result<LexRun, Fail> {
        let g = Rc::new(self.g.clone());
        guarded("lexer", || lex::run_str(sh, &g, &to_string(&self.jobs[job])))
    }
    fn same(&self, job: usize, got: &LexRun, cold: &LexRun) -> Result<(), String> {
        match diff(got, cold) {
            Some(d) => Err(format!("lexing {:?}: {}", to_string(&self.jobs[job]), d)),
            None => Ok(()),
        }
    }
    fn describe(&self) -> String {
        let j: Vec<String> = self.jobs.iter().map(|w| format!("{:?}", to_string(w))).collect();
        format!("lexer grammar: {}\nrecognizers: {}", self.g.show(), j.join("; "))
    }
}

/// returns whether two recognizers really met
fn check<W: Work + 'static>(s: &mut Src, st: &mut Stats, wk: W, njobs: usize, sh: Shared) -> Result<bool, Fail> {
    let wk = Arc::new(wk);
    let kind = s.weighted(&[3, 4, 2]);
    let mut cold = vec![];
    for j in 0..njobs {
        cold.push(wk.run(&sh.fresh(), j).map_err(|f| Fail { msg: format!("{}\n{}", wk.describe(), f.msg) })?);
    }
    // who runs which jobs
    let nth = s.range(2, 4);
    let plan: Vec<Vec<usize>> = (0..nth).map(|_| (0..s.range(1, 2)).map(|_| s.draw(njobs)).collect()).collect();
    let judge = |res: Vec<Vec<Result<W::R, Fail>>>, plan: &[Vec<usize>], how: &str| -> Check {
        for (t, v) in res.into_iter().enumerate() {
            for (k, r) in v.into_iter().enumerate() {
                let r = r.map_err(|f| Fail { msg: format!("{}\n{}: {}", wk.describe(), how, f.msg) })?;
                let j = plan[t][k];
                if let Err(e) = wk.same(j, &r, &cold[j]) {
                    return fail(format!("{}\n{}, jobs per thread {:?}; thread {}: {}", wk.describe(), how, plan, t, e));
                }
            }
        }
        Ok(())
    };
    match kind {
        0 => {
            let sched: Vec<usize> = (0..s.len(1, 80)).map(|_| if s.chance(1, 2) { 1 + s.draw(nth - 1) } else { 0 }).collect();
            let b = Baton::new(nth, sched.clone());
            let warm = sh.fresh();
            let tasks: Vec<Task<Vec<Result<W::R, Fail>>>> = (0..nth)
                .map(|i| {
                    let (b, wk, sh, jobs) = (b.clone(), wk.clone(), warm.clone(), plan[i].clone());
                    Box::new(move || {
                        b.wait(i);
                        let b2 = b.clone();
                        set_hook(Some(Rc::new(move |p| {
                            if p == Point::Between {
                                b2.point(i)
                            }
                        })));
                        let r = jobs.iter().map(|j| wk.run(&sh, *j)).collect();
                        set_hook(None);
                        b.finish(i);
                        r
                    }) as Task<_>
                })
                .collect();
            let res = threads(tasks).map_err(|f| Fail { msg: format!("{}\ninterleaved by schedule {:?}: {}", wk.describe(), sched, f.msg) })?;
            let sw = b.m.lock().unwrap().switches;
            judge(res, &plan, &format!("threads taking turns by schedule {:?} (jobs {:?})", sched, plan))?;
            st.class("threads taking turns");
            Ok(sw > 0)
        }
        1 => {
            let noise = s.draw(3);
            let seed = s.draw(1 << 16) as u64;
            let rounds = if std::env::var_os("VH_REPLAY").is_some() { 400 } else { 3 };
            for round in 0..rounds {
                let warm = sh.fresh();
                let bar = Arc::new(Barrier::new(nth));
                let tasks: Vec<Task<Vec<Result<W::R, Fail>>>> = (0..nth)
                    .map(|i| {
                        let (bar, wk, sh, jobs) = (bar.clone(), wk.clone(), warm.clone(), plan[i].clone());
                        Box::new(move || {
                            let rng = RefCell::new(Rng::new(mix(seed, (round * 16 + i) as u64)));
                            if noise > 0 {
                                set_hook(Some(Rc::new(move |_| {
                                    let x = rng.borrow_mut().next();
                                    match x % 64 {
                                        0 => std::thread::sleep(Duration::from_micros(20 + (x >> 8) % 60)),
                                        1..=6 => std::thread::yield_now(),
                                        7..=20 if noise == 2 => {
                                            for _ in 0..(x >> 8) % 3000 {
                                                std::hint::spin_loop()
                                            }
                                        }
                                        _ => {}
                                    }
                                })));
                            }
                            bar.wait();
                            let r = jobs.iter().map(|j| wk.run(&sh, *j)).collect();
                            set_hook(None);
                            r
                        }) as Task<_>
                    })
                    .collect();
                let res = threads(tasks).map_err(|f| Fail { msg: format!("{}\nfree-running threads, jobs {:?}: {}", wk.describe(), plan, f.msg) })?;
                judge(res, &plan, "free-running threads over one cache")?;
            }
            st.class("free-running threads");
            Ok(true)
        }
        _ => {
            // from the chosen callbacks of the first job, another one is started
            let which: Vec<bool> = (0..s.len(1, 12)).map(|_| s.chance(1, 2)).collect();
            let (outer, inner) = (plan[0][0], plan[1][0]);
            let warm = if s.chance(1, 2) { sh.clone() } else { sh.fresh() };
            let (wk2, warm2, which2) = (wk.clone(), warm.clone(), which.clone());
            let task: Task<(Result<W::R, Fail>, Vec<Result<W::R, Fail>>)> = Box::new(move || {
                let got: Rc<RefCell<Vec<Result<W::R, Fail>>>> = Rc::default();
                let (n, busy) = (std::cell::Cell::new(0), std::cell::Cell::new(false));
                let (g2, wk3, sh3) = (got.clone(), wk2.clone(), warm2.clone());
                set_hook(Some(Rc::new(move |p| {
                    if p == Point::Callback && !busy.get() {
                        let k = n.get();
                        n.set(k + 1);
                        if which2.get(k).copied().unwrap_or(false) {
                            busy.set(true);
                            let r = wk3.run(&sh3, inner);
                            busy.set(false);
                            g2.borrow_mut().push(r);
                        }
                    }
                })));
                let r = wk2.run(&warm2, outer);
                set_hook(None);
                let g = got.borrow().clone();
                (r, g)
            });
            let how = format!("job {} started from callbacks {:?} of job {}", inner, which, outer);
            let (r, nested) = threads(vec![task]).map_err(|f| Fail { msg: format!("{}\n{}: {}", wk.describe(), how, f.msg) })?.pop().unwrap();
            let met = !nested.is_empty();
            let k = nested.len();
            judge(vec![vec![r], nested], &[vec![outer], vec![inner; k]], &how)?;
            st.class(if met { "nested recognizers" } else { "nested: no callback" });
            Ok(met)
        }
    }
}

fn c11_par(s: &mut Src, st: &mut Stats) -> Check {
    let preds = s.chance(1, 4);
    let o = GOpt { dense: s.chance(2, 3), preds, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let sll = s.chance(1, 3);
    let mut jobs: Vec<(Vec<i32>, Opts)> = vec![];
    for _ in 0..s.range(1, 4) {
        let w = if !jobs.is_empty() && s.chance(1, 3) {
            // shares a prefix with an earlier one: meets it in the same cached states
            let mut w = s.pick(&jobs).0.clone();
            let k = s.draw(w.len() + 1);
            w.truncate(k);
            for _ in 0..s.draw(4) {
                w.push(1 + s.draw(g.ntok as usize) as i32);
            }
            w
        } else {
            gen_input(s, &g, 14)
        };
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let per = s.range(1, 3);
        let o = Opts {
            mode: if !preds { s.draw(3) as u8 } else if sll { 0 } else { 1 + s.draw(2) as u8 },
            bail: s.chance(1, 6),
            ll1: s.chance(1, 4),
            listeners: 1,
            truth: (0..g.npred * per).map(|_| s.chance(1, 2)).collect(),
            ..Default::default()
        };
        jobs.push((w, o));
    }
    if jobs.is_empty() {
        return Ok(());
    }
    let n = jobs.len();
    let d = format!("{} {:?}", describe(&c, &jobs[0].0), jobs.iter().map(|j| &j.0).collect::<Vec<_>>());
    let nt = jobs.iter().any(|j| j.0.len() >= 2);
    let met = check(s, st, PWork { c, jobs }, n, sh)?;
    st.class("parsers");
    if met && nt {
        st.nontrivial(&d);
        st.sample(|| d.clone());
    }
    Ok(())
}

fn c11_lex(s: &mut Src, st: &mut Stats) -> Check {
    let o = LOpts {
        nongreedy: s.chance(1, 3),
        unicode: s.chance(1, 5),
        cmds: s.chance(2, 3),
        acts: s.chance(2, 3),
        preds: s.chance(1, 2),
        modes: s.chance(1, 2),
        ops: s.chance(1, 3),
        ..Default::default()
    };
    let g = lex::gen_grammar(s, o);
    let sh = guarded("deserialize", || Shared::new(&lexg::compile(&g)))?;
    let mut jobs: Vec<Vec<i32>> = vec![];
    for _ in 0..s.range(1, 4) {
        let mut v = vec![];
        if !jobs.is_empty() && s.chance(1, 3) {
            v = s.pick(&jobs).clone();
            let k = s.draw(v.len() + 1);
            v.truncate(k);
        }
        v.extend(lexg::gen_linput(s, &g, 30));
        v.truncate(40);
        if lexg::ref_lex(&g, &v, lex::LIM).is_none() {
            st.skipped += 1;
            continue;
        }
        jobs.push(v);
    }
    if jobs.is_empty() {
        return Ok(());
    }
    let n = jobs.len();
    let d = format!("{} {:?}", g.show(), jobs.iter().map(|j| to_string(j)).collect::<Vec<_>>());
    let nt = jobs.iter().any(|j| j.len() >= 2);
    let met = check(s, st, LWork { g, jobs }, n, sh)?;
    st.class("lexers");
    if met && nt {
        st.nontrivial(&d);
        st.sample(|| d.clone());
    }
    Ok(())
}

fn c11(s: &mut Src, st: &mut Stats) -> Check {
    let lexer = s.chance(1, 3);
    let r = if lexer { c11_lex(s, st) } else { c11_par(s, st) };
    ensure!(r.is_ok() || !r.as_ref().unwrap_err().msg.is_empty(), "no message");
    r
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        rule: "a case is a random parser or lexer grammar, 1-4 jobs (inputs with modes, strategies, predicate values) and 2-4 recognizers over one set of caches: threads that take turns between predictions/tokens by a drawn schedule, threads that run freely with drawn noise at input accesses (3 rounds over cold caches), or one recognizer started from the actions and listeners of another; every outcome, prediction sequence and report compared with the same job alone over cold caches; a run that is not over after 60 s is a deadlock; non-trivial: at least one switch / nested run and two input symbols",
        f: c11,
        directed: None,
        quick: 30_000,
        thorough: 1_000_000,
        assumptions: &["free-running threads see the interleavings the machine happens to produce", "predicates do not start recognizers of the same grammar"],
    }]
}
