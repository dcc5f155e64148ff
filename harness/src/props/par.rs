//! Parser properties.
use crate::atnc::{PLUS_LOOP_BACK, STAR_LOOP_BACK};
use crate::engine::*;
use crate::ensure;
use crate::lexdrv::Shared;
use crate::pardrv::*;
use crate::parg::*;
use crate::Prop;

pub fn describe(c: &Compiled, w: &[i32]) -> String {
    format!("grammar:\n{}input: {}", show(&c.g), show_toks(w))
}

pub const HEAVY: usize = 1500;

pub enum Expect {
    Accept(String),
    Reject,
}
impl Expect {
    pub fn accepted(&self) -> bool {
        matches!(self, Expect::Accept(_))
    }
}
pub struct RefOut {
    pub dlog: Vec<(usize, Vec<usize>)>,
    pub exp: Expect,
    pub ambiguous: usize,
    pub decisions: usize,
    pub pred_decided: usize,
    pub iters: usize,
}
/// None: the reference gave up (budget)
pub fn reference(c: &Compiled, w: &[i32], truth: &[bool]) -> Option<RefOut> {
    let mut r = Ref::new(&c.g, w, truth);
    match r.parse() {
        Err(TooBig) => None,
        Ok(t) => Some(RefOut {
            exp: match t {
                Some(t) => Expect::Accept(sig(&t, &c.g.labelled)),
                None => Expect::Reject,
            },
            ambiguous: r.ambiguous,
            decisions: r.decisions,
            pred_decided: r.pred_decided,
            iters: r.iters,
            dlog: std::mem::take(&mut r.dlog),
        }),
    }
}

pub fn id_idx(i: isize) -> isize {
    i
}

/// verdict of one parse against the reference
pub fn judge(c: &Compiled, w: &[i32], e: &Expect, o: &Out) -> Check {
    let errs = o.log.errs.borrow();
    match e {
        Expect::Accept(t) => {
            ensure!(errs.is_empty() && o.err.is_none(), "{}\na sentence of the grammar was rejected: {:?} {:?}", describe(c, w), *errs, o.err);
            let got = tree_sig(o.root.as_ref().unwrap(), &id_idx);
            ensure!(&got == t, "{}\ntree differs\n got {}\nwant {}", describe(c, w), got, t);
        }
        Expect::Reject if c.g.start != 0 && errs.is_empty() && o.err.is_none() => {
            // nothing asks for the end of input: the parse may end early, with a sentence
            let k = o.index as usize;
            ensure!(k < w.len() || k == 0, "{}\nnot a sentence of the grammar, but parsed to its end without a syntax error: {}", describe(c, w), o.tree_str);
            let got = tree_sig(o.root.as_ref().unwrap(), &id_idx);
            ensure!(c.derives(&w[..k]), "{}\nparsed {} without a syntax error, but the {} tokens consumed are no sentence", describe(c, w), got, k);
        }
        Expect::Reject => {
            ensure!(!errs.is_empty() || o.err.is_some(), "{}\nnot a sentence of the grammar, but parsed without a syntax error: {}", describe(c, w), o.tree_str);
        }
    }
    Ok(())
}


/// run with library panics turned into failures
pub fn go(c: &Compiled, sh: &Shared, w: &[i32], toks: &[TokSpec], o: &Opts) -> Result<Out, Fail> {
    trace(|| describe(c, w));
    guarded("parse", || run(c, sh, toks, o)).map_err(|f| Fail { msg: format!("{}\n{}", describe(c, w), f.msg) })
}

/// everything a user can see of one parse
pub fn outcome(o: &Out) -> String {
    let mut s = String::new();
    match (&o.root, &o.err) {
        (Some(r), _) => s += &tree_sig(r, &id_idx),
        (None, Some(e)) => s += e,
        _ => {}
    }
    s += "\n";
    for e in o.log.errs.borrow().iter() {
        s += &format!("line {}:{} token {} {} [{}]\n", e.line, e.col, e.tok, e.msg, e.kind);
    }
    s
}
pub fn diag_str(o: &Out) -> String {
    o.log.diags.borrow().iter().map(|d| format!("{:?}\n", d)).collect()
}
pub fn pred_str(o: &Out) -> String {
    o.log.preds.borrow().iter().map(|d| format!("{:?} ", d)).collect()
}

/// input and reference verdict; None = left out (counted)
pub fn pick_input(s: &mut Src, st: &mut Stats, c: &Compiled, max: usize, truth: &[bool]) -> Option<(Vec<i32>, RefOut)> {
    let w = gen_input(s, &c.g, max);
    if c.heavy(&w, HEAVY) {
        st.skipped += 1;
        st.class("left out: exponential");
        return None;
    }
    match reference(c, &w, truth) {
        Some(r) => Some((w, r)),
        None => {
            st.skipped += 1;
            None
        }
    }
}

fn note(st: &mut Stats, c: &Compiled, w: &[i32], yes: bool, sample: bool) {
    if yes {
        let d = describe(c, w);
        st.nontrivial(&d);
        if sample {
            st.sample(|| d.clone());
        }
    }
}

// ---------------------------------------------------------------- C07

fn c07(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(1, 2), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let n = s.range(1, 5);
    for _ in 0..n {
        let (w, r) = match pick_input(s, st, &c, 18, &[]) {
            Some(x) => x,
            None => continue,
        };
        let opts = Opts { ll1: s.chance(1, 2), ..Default::default() };
        let out = go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        let acc = r.exp.accepted();
        judge(&c, &w, &r.exp, &out)?;
        if acc && !opts.ll1 {
            // each prediction is the lowest alternative that leads to a complete parse
            let p = out.log.preds.borrow();
            let got: Vec<(usize, usize)> = p.iter().map(|x| (x.1 as usize, x.2 as usize)).collect();
            let want: Vec<(usize, usize)> = r.dlog.iter().map(|x| (x.0, x.1[0])).collect();
            ensure!(got == want, "{}\npredictions (position, alternative) differ\n got {:?}\nwant {:?}", describe(&c, &w), got, want);
        }
        st.class(if acc { "accepted" } else { "rejected" });
        st.class_if(r.ambiguous > 0, "ambiguous");
        st.class_if(r.iters > 0, "loop iterated");
        let diags = out.log.diags.borrow();
        st.class_if(!diags.is_empty(), "full-context prediction needed");
        note(st, &c, &w, acc && r.decisions >= 2 && w.len() >= 2, r.ambiguous > 0);
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug)]
enum K {
    Bin(i32, bool),
    Pre(i32),
    Post(i32),
    Tern(i32, i32, bool),
    Index(i32, i32),
    Atom,
    Paren,
}
struct Expr {
    alts: Vec<K>,
}
impl Expr {
    fn prec(&self, i: usize) -> u32 {
        (self.alts.len() - i) as u32
    }
    /// precedence climbing over the token string
    fn parse(&self, w: &[i32], p: &mut usize, min: u32, lab: bool) -> Option<String> {
        let hd = |i: usize| if lab { format!("(r1#{}", i + 1) } else { "(r1".to_string() };
        let t = *w.get(*p)?;
        let at = *p;
        let i = self.alts.iter().position(|k| match k {
            K::Pre(x) => *x == t,
            K::Atom => t == 1,
            K::Paren => t == 2,
            _ => false,
        })?;
        *p += 1;
        let mut left = match &self.alts[i] {
            K::Pre(_) => {
                let r = self.parse(w, p, self.prec(i), lab)?;
                format!("{} {} {})", hd(i), at, r)
            }
            K::Atom => format!("{} {})", hd(i), at),
            _ => {
                let r = self.parse(w, p, 0, lab)?;
                let c = *p;
                if w.get(c) != Some(&3) {
                    return None;
                }
                *p += 1;
                format!("{} {} {} {})", hd(i), at, r, c)
            }
        };
        loop {
            let t = match w.get(*p) {
                Some(t) => *t,
                None => return Some(left),
            };
            let i = match self.alts.iter().position(|k| match k {
                K::Bin(x, _) | K::Post(x) | K::Tern(x, _, _) | K::Index(x, _) => *x == t,
                _ => false,
            }) {
                Some(i) => i,
                None => return Some(left),
            };
            let pr = self.prec(i);
            if pr < min {
                return Some(left);
            }
            let at = *p;
            *p += 1;
            left = match &self.alts[i] {
                K::Bin(_, right) => {
                    let r = self.parse(w, p, if *right { pr } else { pr + 1 }, lab)?;
                    format!("{} {} {} {})", hd(i), left, at, r)
                }
                K::Post(_) => format!("{} {} {})", hd(i), left, at),
                K::Tern(_, t2, right) => {
                    let m = self.parse(w, p, 0, lab)?;
                    let c = *p;
                    if w.get(c) != Some(t2) {
                        return None;
                    }
                    *p += 1;
                    let r = self.parse(w, p, if *right { pr } else { pr + 1 }, lab)?;
                    format!("{} {} {} {} {} {})", hd(i), left, at, m, c, r)
                }
                K::Index(_, t2) => {
                    let m = self.parse(w, p, 0, lab)?;
                    let c = *p;
                    if w.get(c) != Some(t2) {
                        return None;
                    }
                    *p += 1;
                    format!("{} {} {} {} {})", hd(i), left, at, m, c)
                }
                _ => unreachable!(),
            };
        }
    }
    fn gram(&self, lab: bool) -> Gram {
        let mut prims = vec![];
        let mut ops = vec![];
        for (i, k) in self.alts.iter().enumerate() {
            let pr = self.prec(i);
            let nx = |right: bool| if right { pr } else { pr + 1 };
            match k {
                K::Bin(t, r) => ops.push(Op { prec: pr, body: vec![P::Tok(*t), P::Rule(1, nx(*r))], alt: i + 1 }),
                K::Post(t) => ops.push(Op { prec: pr, body: vec![P::Tok(*t)], alt: i + 1 }),
                K::Tern(a, b, r) => {
                    ops.push(Op { prec: pr, body: vec![P::Tok(*a), P::Rule(1, 0), P::Tok(*b), P::Rule(1, nx(*r))], alt: i + 1 })
                }
                K::Index(a, b) => ops.push(Op { prec: pr, body: vec![P::Tok(*a), P::Rule(1, 0), P::Tok(*b)], alt: i + 1 }),
                K::Pre(t) => prims.push((i + 1, vec![P::Tok(*t), P::Rule(1, pr)])),
                K::Atom => prims.push((i + 1, vec![P::Tok(1)])),
                K::Paren => prims.push((i + 1, vec![P::Tok(2), P::Rule(1, 0), P::Tok(3)])),
            }
        }
        Gram {
            ntok: 15,
            rules: vec![R::Plain { alts: vec![vec![P::Rule(1, 0), P::Tok(crate::atnc::EOF)]] }, R::Lr { prims, ops }],
            labelled: vec![false, lab],
            npred: 0,
            pred_rule: vec![],
            start: 0,
        }
    }
    fn sent(&self, s: &mut Src, d: usize, w: &mut Vec<i32>) {
        if d == 0 || w.len() > 60 {
            return w.push(1);
        }
        let i = s.draw(self.alts.len());
        match self.alts[i].clone() {
            K::Bin(t, _) => {
                self.sent(s, d - 1, w);
                w.push(t);
                self.sent(s, d - 1, w)
            }
            K::Pre(t) => {
                w.push(t);
                self.sent(s, d - 1, w)
            }
            K::Post(t) => {
                self.sent(s, d - 1, w);
                w.push(t)
            }
            K::Tern(a, b, _) => {
                self.sent(s, d - 1, w);
                w.push(a);
                self.sent(s, d - 1, w);
                w.push(b);
                self.sent(s, d - 1, w)
            }
            K::Index(a, b) => {
                self.sent(s, d - 1, w);
                w.push(a);
                self.sent(s, d - 1, w);
                w.push(b)
            }
            K::Atom => w.push(1),
            K::Paren => {
                w.push(2);
                self.sent(s, d - 1, w);
                w.push(3)
            }
        }
    }
}

/// a random operator table; the flag says whether a prefix and a binary operator share a token
fn gen_expr(s: &mut Src) -> (Expr, bool) {
    let n = s.range(1, 6);
    let mut next = 4;
    let mut alts = vec![];
    let mut fresh = || {
        next += 1;
        next - 1
    };
    for _ in 0..n {
        alts.push(match s.weighted(&[8, 3, 3, 2, 1]) {
            0 => K::Bin(fresh(), s.chance(1, 3)),
            1 => K::Pre(-9),
            2 => K::Post(fresh()),
            3 => K::Tern(fresh(), fresh(), s.chance(1, 2)),
            _ => K::Index(fresh(), fresh()),
        });
    }
    if !alts.iter().any(|k| !matches!(k, K::Pre(_))) {
        alts.push(K::Bin(fresh(), s.chance(1, 3)));
    }
    // prefix operators: own token, or the token of a binary operator (like unary minus)
    let bins: Vec<i32> = alts.iter().filter_map(|k| if let K::Bin(t, _) = k { Some(*t) } else { None }).collect();
    let mut used: Vec<i32> = vec![];
    let mut shared = false;
    for i in 0..alts.len() {
        if let K::Pre(_) = alts[i] {
            let free: Vec<i32> = bins.iter().copied().filter(|b| !used.contains(b)).collect();
            let t = if !free.is_empty() && s.chance(1, 2) {
                shared = true;
                *s.pick(&free)
            } else {
                fresh()
            };
            used.push(t);
            alts[i] = K::Pre(t);
        }
    }
    let a = s.draw(alts.len() + 1);
    alts.insert(alts.len() - a, K::Atom);
    let paren = s.chance(1, 2);
    if paren {
        let a = s.draw(alts.len() + 1);
        alts.insert(alts.len() - a, K::Paren);
    }
    (Expr { alts }, shared)
}

fn c08(s: &mut Src, st: &mut Stats) -> Check {
    let (e, shared) = gen_expr(s);
    let lab = s.chance(1, 2);
    let mut g = e.gram(lab);
    // actions at the end of alternatives change nothing
    if s.chance(1, 3) {
        if let R::Lr { prims, ops } = &mut g.rules[1] {
            for b in prims.iter_mut().map(|p| &mut p.1).chain(ops.iter_mut().map(|o| &mut o.body)) {
                if s.chance(1, 2) {
                    b.push(P::Act);
                }
            }
        }
    }
    // enter the rule directly or through r0
    g.start = s.chance(1, 4) as usize;
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    for _ in 0..4 {
        let mut w = vec![];
        let d = s.range(1, 5);
        e.sent(s, d, &mut w);
        w.truncate(40);
        if s.chance(1, 6) && w.len() > 1 {
            let i = s.draw(w.len());
            w.remove(i);
        }
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let mut p = 0;
        let exp = match e.parse(&w, &mut p, 0, lab) {
            Some(t) if p == w.len() && c.g.start == 1 => Expect::Accept(t),
            Some(t) if p == w.len() => Expect::Accept(format!("(r0 {} {})", t, w.len())),
            _ => Expect::Reject,
        };
        let mode = s.draw(3) as u8;
        let out = go(&c, &sh, &w, &plain_toks(&w), &Opts { mode: if mode == 0 { 1 } else { mode }, ll1: s.chance(1, 2), ..Default::default() })?;
        judge(&c, &w, &exp, &out)?;
        let acc = exp.accepted();
        let ops = w.iter().filter(|t| **t > 3).count();
        st.class(if acc { "accepted" } else { "rejected" });
        st.class_if(acc && ops >= 3, "three or more operators");
        st.class_if(shared, "prefix and binary operator share a token");
        st.class_if(e.alts.iter().any(|k| matches!(k, K::Tern(..))), "ternary");
        note(st, &c, &w, acc && ops >= 2, ops >= 4);
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn c09(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(2, 3), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let n = s.range(1, 3);
    let sh = Shared::new(&c.atn);
    for _ in 0..n {
        let (w, r) = match pick_input(s, st, &c, 16, &[]) {
            Some(x) => x,
            None => continue,
        };
        let toks = plain_toks(&w);
        let ll = go(&c, &sh.fresh(), &w, &toks, &Opts::default())?;
        let ex = go(&c, &sh.fresh(), &w, &toks, &Opts { mode: 2, ..Default::default() })?;
        let sll = go(&c, &sh.fresh(), &w, &toks, &Opts { mode: 0, ..Default::default() })?;
        judge(&c, &w, &r.exp, &ex).map_err(|f| Fail { msg: format!("LL_EXACT_AMBIG_DETECTION: {}", f.msg) })?;
        judge(&c, &w, &r.exp, &ll).map_err(|f| Fail { msg: format!("LL: {}", f.msg) })?;
        let sll_ok = sll.log.errs.borrow().is_empty() && sll.err.is_none();
        // without EOF at the end, a parse that stops early has not succeeded on this input
        let whole = |o: &Out| g.start == 0 || o.index as usize == w.len();
        if sll_ok && whole(&sll) {
            // SLL either reports a syntax error or gives the LL result
            judge(&c, &w, &r.exp, &sll).map_err(|f| Fail { msg: format!("SLL: {}", f.msg) })?;
        }
        // two-stage parsing: SLL + bail, then LL on failure
        let st1 = go(&c, &sh.fresh(), &w, &toks, &Opts { mode: 0, bail: true, ..Default::default() })?;
        if st1.err.is_none() && whole(&st1) {
            judge(&c, &w, &r.exp, &st1).map_err(|f| Fail { msg: format!("two-stage, first stage: {}", f.msg) })?;
        }
        let fullctx = sll.log.diags.borrow().iter().any(|x| !matches!(x, Diag::Ambig { .. }));
        ensure!(!fullctx, "{}\nSLL mode attempted a full-context prediction: {:?}", describe(&c, &w), sll.log.diags.borrow());
        let acc = r.exp.accepted();
        let full = !ll.log.diags.borrow().is_empty();
        st.class(if acc { "accepted" } else { "rejected" });
        st.class_if(full, "full-context prediction needed");
        st.class_if(acc && !sll_ok, "SLL too weak for a valid input");
        note(st, &c, &w, full && w.len() >= 2, acc);
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

/// Prediction promises nothing for wrong input: when it runs into the error, the alternative it falls
/// back to depends on configurations that equal DFA states may have collected differently. So two parses
/// of a wrong input may part, but only at a prediction both make (and both stay wrong).
pub fn fallback_parts(a: &Out, b: &Out) -> bool {
    wrong(a) && wrong(b) && parts(a, b)
}
fn wrong(o: &Out) -> bool {
    o.err.is_some() || !o.log.errs.borrow().is_empty()
}
fn parts(a: &Out, b: &Out) -> bool {
    let (x, y) = (a.log.preds.borrow(), b.log.preds.borrow());
    match x.iter().zip(y.iter()).position(|(p, q)| p != q) {
        Some(i) => x[i].0 == y[i].0 && x[i].1 == y[i].1,
        None => false,
    }
}

fn c10(s: &mut Src, st: &mut Stats) -> Check {
    let preds = s.chance(1, 4);
    let o = GOpt { dense: s.chance(2, 3), preds, entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let warm = Shared::new(&c.atn);
    // where SLL prediction sees a conflict depends on the mode once predicates are involved, so the modes
    // sharing a cache then agree on that
    let sll = s.chance(1, 3);
    let n = s.range(2, 7);
    let mut prev: Vec<Vec<i32>> = vec![];
    let mut parsed = 0;
    for _ in 0..n {
        let per = s.range(1, 3);
        let truth: Vec<bool> = (0..g.npred * per).map(|_| s.chance(1, 2)).collect();
        let w = if !prev.is_empty() && s.chance(1, 4) {
            // an earlier input, possibly with a new tail: follows the cached prefix, then leaves it
            let mut w = s.pick(&prev).clone();
            if s.chance(1, 2) {
                let k = s.draw(w.len() + 1);
                w.truncate(k);
                for _ in 0..s.draw(4) {
                    w.push(1 + s.draw(g.ntok as usize) as i32);
                }
            }
            w
        } else {
            gen_input(s, &g, 14)
        };
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let opts = Opts {
            mode: if !preds { s.draw(3) as u8 } else if sll { 0 } else { 1 + s.draw(2) as u8 },
            bail: s.chance(1, 5),
            ll1: s.chance(1, 3),
            truth,
            ..Default::default()
        };
        let toks = plain_toks(&w);
        let a = go(&c, &warm, &w, &toks, &opts)?;
        let b = go(&c, &warm.fresh(), &w, &toks, &opts)?;
        // input that an entry rule without EOF does not take to its end is wrong, too
        let early = |o: &Out| g.start != 0 && ((o.index as usize) < w.len() || wrong(o));
        if fallback_parts(&a, &b) || early(&a) && early(&b) && parts(&a, &b) {
            st.class("wrong input, different fallback");
            parsed += 1;
            prev.push(w);
            continue;
        }
        let (x, y) = (outcome(&a), outcome(&b));
        ensure!(
            x == y,
            "{}\nafter {} earlier parses over the same DFA cache: {:?}\nmode {} predicates {:?}\nwarm: {}\ncold: {}",
            describe(&c, &w),
            parsed,
            prev.iter().map(|p| show_toks(p)).collect::<Vec<_>>(),
            opts.mode,
            opts.truth,
            x,
            y
        );
        ensure!(
            pred_str(&a) == pred_str(&b),
            "{}\nafter {} earlier parses: {:?}\nmode {}\npredictions with a warm cache {}\npredictions with a cold one {}",
            describe(&c, &w),
            parsed,
            prev.iter().map(|p| show_toks(p)).collect::<Vec<_>>(),
            opts.mode,
            pred_str(&a),
            pred_str(&b)
        );
        ensure!(
            diag_str(&a) == diag_str(&b),
            "{}\nafter {} earlier parses: {:?}\nmode {}\nreports with a warm cache\n{}reports with a cold one\n{}",
            describe(&c, &w),
            parsed,
            prev.iter().map(|p| show_toks(p)).collect::<Vec<_>>(),
            opts.mode,
            diag_str(&a),
            diag_str(&b)
        );
        if b.log.asked.borrow().len() > 1 {
            // nothing but the input and the predicates decides: the same parse again, step by step
            let b2 = go(&c, &warm.fresh(), &w, &toks, &opts)?;
            ensure!(outcome(&b2) == y && pred_str(&b2) == pred_str(&b) && diag_str(&b2) == diag_str(&b), "{}\nmode {} predicates {:?}\ntwo parses of the same input, each with an empty cache, differ:\n{}\n{}", describe(&c, &w), opts.mode, opts.truth, y, outcome(&b2));
            ensure!(*b2.log.asked.borrow() == *b.log.asked.borrow(), "{}\nmode {} predicates {:?}\ntwo parses of the same input, each with an empty cache, ask for different predicates (rule, index, position):\n{:?}\n{:?}", describe(&c, &w), opts.mode, opts.truth, b.log.asked.borrow(), b2.log.asked.borrow());
            st.class("repeated with predicates");
        }
        st.class(if a.log.errs.borrow().is_empty() { "accepted" } else { "rejected" });
        st.class_if(parsed > 0, "warm");
        st.class_if(!a.log.diags.borrow().is_empty(), "full-context prediction needed");
        st.class_if(preds && g.npred > 0, "predicates");
        note(st, &c, &w, parsed > 0 && !a.log.preds.borrow().is_empty() && w.len() >= 2, parsed > 1);
        parsed += 1;
        prev.push(w);
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// leaves in order: (token index, error)
pub fn leaves(n: &std::rc::Rc<Node<'static>>, out: &mut Vec<(isize, bool)>) {
    use antlr_rust::tree::Tree;
    for ch in n.get_children() {
        match leaf_kind(&ch) {
            Some(x) => out.push(x),
            None => leaves(&as_rule(&ch).unwrap(), out),
        }
    }
}

pub fn bad_input(s: &mut Src, g: &Gram, max: usize) -> Vec<i32> {
    let mut w = gen_input(s, g, max);
    if s.chance(1, 2) {
        for _ in 0..s.range(1, 4) {
            let t = 1 + s.draw(g.ntok as usize) as i32;
            let i = s.draw(w.len() + 1);
            match s.draw(3) {
                0 => w.insert(i, t),
                1 if i < w.len() => w[i] = t,
                _ if i < w.len() => {
                    w.remove(i);
                }
                _ => {}
            }
        }
    }
    w
}

fn c12(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(1, 2), preds: s.chance(1, 6), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let truth: Vec<bool> = (0..g.npred).map(|_| s.chance(2, 3)).collect();
    for _ in 0..s.range(1, 5) {
        let w = bad_input(s, &g, 16);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let opts = Opts { ll1: s.chance(1, 2), mode: s.draw(3) as u8, truth: truth.clone(), budget: 200_000, ..Default::default() };
        let out = go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        let d = || describe(&c, &w);
        let errs = out.log.errs.borrow();
        // recovery never gives up
        ensure!(out.root.is_some(), "{}\nthe parser returned an error instead of recovering: {:?}", d(), out.err);
        let root = out.root.as_ref().unwrap();
        let mut lv = vec![];
        leaves(root, &mut lv);
        // every token is in the tree exactly once, in order; tokens made up by recovery carry index -1
        let real: Vec<isize> = lv.iter().map(|x| x.0).filter(|i| *i >= 0).collect();
        let n = w.len() as isize;
        // an entry rule that no EOF ends may stop early
        let upto = if g.start == 0 { n } else { out.index };
        let mut want: Vec<isize> = (0..upto).collect();
        // the end-of-file token is never consumed: it can be reported as an error node and then
        // matched, so it may occur more than once
        for _ in real.iter().filter(|i| **i == n) {
            want.push(n);
        }
        ensure!(real == want, "{}\nleaves of the tree {:?}: not every input token exactly once in order\n{}", d(), real, out.tree_str);
        ensure!(lv.iter().all(|(i, e)| *i >= 0 || *e), "{}\na made-up token is not an error node\n{}", d(), out.tree_str);
        ensure!(out.index == upto && upto <= n, "{}\nparser stopped at token {} of {}", d(), out.index, n);
        let has_err_leaf = lv.iter().any(|x| x.1);
        ensure!(!has_err_leaf || !errs.is_empty(), "{}\nerror nodes without a reported error\n{}", d(), out.tree_str);
        // without an error: no error nodes, EOF matched
        if errs.is_empty() && g.start == 0 {
            ensure!(real.last() == Some(&n), "{}\nno error, but the end of input was not matched\n{}", d(), out.tree_str);
        }
        // error positions never go backwards, and no two errors at one position without progress
        for e in errs.iter() {
            ensure!(e.tok >= 0 && e.tok <= n, "{}\noffending token {} outside the input: {}", d(), e.tok, e.msg);
            ensure!(e.tok >= e.at, "{}\noffending token {} lies before the current position {}: {}", d(), e.tok, e.at, e.msg);
        }
        for k in 1..errs.len() {
            ensure!(errs[k].at >= errs[k - 1].at, "{}\nerrors reported out of order: {:?}", d(), *errs);
            ensure!(errs[k].at > errs[k - 1].at || errs[k].at == n, "{}\ntwo errors at position {} without a token matched in between: {} / {}", d(), errs[k].at, errs[k - 1].msg, errs[k].msg);
        }
        ensure!(out.ctx_after_none, "{}\nparser context not restored after the parse", d());
        ensure!(!out.info.bad_release.get() && out.info.open_marks.get() == 0, "{}\nmarkers not released in stack order ({} left open)", d(), out.info.open_marks.get());
        ensure!(!out.bad_pred, "{}\na predicate was asked for that the grammar does not contain", d());
        // the same grammar state is usable afterwards: a sentence still parses
        st.class(if errs.is_empty() { "no error" } else { "errors" });
        for e in errs.iter() {
            st.class(match e.kind {
                "inline" => {
                    if e.msg.starts_with("missing") {
                        "token inserted"
                    } else {
                        "token deleted"
                    }
                }
                k => k,
            });
        }
        st.class_if(errs.len() >= 3, "three or more errors");
        note(st, &c, &w, !errs.is_empty(), errs.len() >= 2);
    }
    // afterwards the shared caches still give correct results
    if g.npred == 0 {
        if let Some((w, r)) = pick_input(s, st, &c, 14, &[]) {
            let out = go(&c, &sh, &w, &plain_toks(&w), &Opts::default())?;
            judge(&c, &w, &r.exp, &out)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(1, 2), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    for _ in 0..s.range(1, 5) {
        let (w, r) = match pick_input(s, st, &c, 16, &[]) {
            Some(x) => x,
            None => continue,
        };
        let opts = Opts { bail: true, ll1: s.chance(1, 2), dyn_strategy: s.chance(1, 4), ..Default::default() };
        let out = go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        let d = || describe(&c, &w);
        let errs = out.log.errs.borrow();
        match &r.exp {
            Expect::Accept(t) => {
                ensure!(out.err.is_none() && errs.is_empty(), "{}\na sentence was cancelled: {:?}", d(), out.err);
                let got = tree_sig(out.root.as_ref().unwrap(), &id_idx);
                ensure!(&got == t, "{}\ntree differs\n got {}\nwant {}", d(), got, t);
            }
            Expect::Reject if g.start != 0 && out.err.is_none() => judge(&c, &w, &r.exp, &out)?,
            Expect::Reject => {
                ensure!(out.err.is_some(), "{}\nnot a sentence, but the bail strategy returned a tree: {}", d(), out.tree_str);
                ensure!(out.cancelled, "{}\nthe bail strategy returned {:?}, not a cancelled parse", d(), out.err);
                ensure!(out.err.as_ref().unwrap().contains("ParseCancelledError"), "{}\nunexpected error {:?}", d(), out.err);
                ensure!(errs.len() <= 1, "{}\nerrors after the first: {:?}", d(), *errs);
                // nothing is consumed past the first bad token: what was consumed is a viable prefix
                let k = out.index as usize;
                ensure!(k <= w.len() && viable_prefix(&c, &w[..k]), "{}\n{} tokens consumed, but they do not begin any sentence", d(), k);
            }
        }
        let acc = r.exp.accepted();
        st.class(if acc { "accepted" } else { "cancelled" });
        note(st, &c, &w, !acc && w.len() >= 2, out.index > 2);
    }
    Ok(())
}

/// is `w` the beginning of a sentence? (exact simulation; precedence predicates respected)
pub fn viable_prefix(c: &Compiled, w: &[i32]) -> bool {
    c.viable_len(w) >= w.len()
}

// ---------------------------------------------------------------- C14

fn hidden_toks(s: &mut Src, w: &[i32], lead: bool) -> (Vec<TokSpec>, Vec<isize>) {
    let mut v = vec![];
    let mut idx = vec![];
    let hid = |s: &mut Src, v: &mut Vec<TokSpec>| {
        if s.chance(1, 3) {
            for _ in 0..s.range(1, 2) {
                let text = *s.pick(&[" ", "\n", "/*x*/", "\t", "\u{e9}\n "]);
                v.push(TokSpec { ty: 1 + s.draw(3) as i32, channel: *s.pick(&[1isize, 2, 7]), text: text.into() });
            }
        }
    };
    if lead {
        hid(s, &mut v);
    }
    for (i, t) in w.iter().enumerate() {
        if i > 0 {
            hid(s, &mut v);
        }
        idx.push(v.len() as isize);
        let text = match s.draw(5) {
            0 => format!("{}\n", tname(*t)),
            1 => format!("\u{e9}{}", i),
            2 => format!("{}\t\r", i),
            _ => format!("{}{}", tname(*t).to_lowercase(), i),
        };
        v.push(TokSpec { ty: *t, channel: 0, text });
    }
    if !w.is_empty() || lead {
        hid(s, &mut v);
    }
    idx.push(v.len() as isize); // EOF
    (v, idx)
}

fn check_node(
    c: &Compiled,
    d: &dyn Fn() -> String,
    toks: &[TokSpec],
    n: &std::rc::Rc<Node<'static>>,
    parent: Option<&std::rc::Rc<Node<'static>>>,
    on: &[isize],
    pos: &mut usize,
    text: &mut String,
    lisp: &mut String,
    errs: bool,
) -> Check {
    use antlr_rust::parser_rule_context::{ParserRuleContext, RuleContextExt};
    use antlr_rust::rule_context::{CustomRuleContext, RuleContext};
    use antlr_rust::token::Token;
    use antlr_rust::tree::{ParseTree, Tree};
    use std::rc::Rc;
    let first = *pos;
    ensure!(n.get_rule_index() == n.rule, "{}\nrule index changed", d());
    // links
    match parent {
        None => ensure!(n.get_parent_ctx().is_none() && n.get_parent().is_none(), "{}\nthe root has a parent", d()),
        Some(p) => {
            let q = n.get_parent().map(|q| as_rule(&q).map(|q| q.id));
            ensure!(
                n.get_parent().map_or(false, |q| Rc::as_ptr(&q) as *const u8 == Rc::as_ptr(p) as *const u8),
                "{}\nparent link of a {} node leads to {:?}, not to the node that contains it",
                d(),
                RULE_NAMES[n.rule],
                q
            );
            ensure!(n.has_parent(), "{}\nhas_parent is false for a contained node", d());
        }
    }
    // printed chain of contexts: from the node to the root
    {
        let mut chain: Vec<Rc<Node<'static>>> = vec![n.clone()];
        while let Some(p) = chain.last().unwrap().get_parent() {
            chain.push(as_rule(&p).unwrap());
        }
        let names: Vec<&str> = chain.iter().map(|x| RULE_NAMES[x.rule]).collect();
        let nums: Vec<String> = chain.iter().filter(|x| x.get_invoking_state() != -1).map(|x| x.get_invoking_state().to_string()).collect();
        let got = RuleContextExt::to_string::<AnyNode>(n, Some(&RULE_NAMES), None);
        ensure!(got == format!("[{}]", names.join(" ")), "{}\na context prints as {}, the rules up to the root are {:?}", d(), got, names);
        let got = RuleContextExt::to_string::<AnyNode>(n, None, None);
        ensure!(got == format!("[{}]", nums.join(" ")), "{}\na context prints as {}, its invoking states are {:?}", d(), got, nums);
        let stop = chain.len() / 2;
        let got = RuleContextExt::to_string::<AnyNode>(n, Some(&RULE_NAMES), Some(chain[stop].clone() as Rc<AnyNode>));
        ensure!(got == format!("[{}]", names[..stop].join(" ")), "{}\na context printed up to its {}th ancestor gives {}, the rules are {:?}", d(), stop, got, names);
    }
    ensure!(n.get_children().count() == n.get_child_count(), "{}\nchild count and children disagree", d());
    ensure!(n.get_child(n.get_child_count()).is_none(), "{}\nchild past the end", d());
    let mut t2 = String::new();
    let mut kids = vec![];
    for (i, ch) in n.get_children().enumerate() {
        ensure!(n.get_child(i).map_or(false, |x| Rc::ptr_eq(&x, &ch)), "{}\nget_child({}) is not the {}th child", d(), i, i);
        let mut l = String::new();
        match leaf_kind(&ch) {
            Some((i, _)) => {
                let tt = if i < 0 {
                    ch.get_text()
                } else if i as usize == toks.len() {
                    "<EOF>".into()
                } else {
                    toks[i as usize].text.clone()
                };
                ensure!(ch.get_text() == tt, "{}\ntext of leaf {} is {:?}, token text {:?}", d(), i, ch.get_text(), tt);
                let iv = ch.get_source_interval();
                ensure!(iv.a == i && iv.b == i, "{}\nsource interval of leaf {} is {:?}", d(), i, iv);
                // (the end of input can be matched again and again)
                if i >= 0 && !(i as usize == toks.len() && *pos == on.len()) {
                    ensure!(on.get(*pos) == Some(&i), "{}\nleaf {} out of order (expected {:?})", d(), i, on.get(*pos));
                    *pos += 1;
                }
                t2 += &tt;
                l += &esc(&tt);
            }
            None => {
                let r = as_rule(&ch);
                ensure!(r.is_some(), "{}\nunknown child type", d());
                check_node(c, d, toks, &r.unwrap(), Some(n), on, pos, &mut t2, &mut l, errs)?;
            }
        }
        kids.push(l);
    }
    ensure!(n.get_text() == t2, "{}\ntext of a {} node is {:?}, its leaves give {:?}", d(), RULE_NAMES[n.rule], n.get_text(), t2);
    // start is the first token of the node (or the one it would have been), stop the last one consumed
    let iv = n.get_source_interval();
    let (a, b) = (n.start().get_token_index(), n.stop().get_token_index());
    ensure!(iv.a == a && iv.b == b, "{}\nsource interval {:?} but start {} stop {}", d(), iv, a, b);
    let wa = on[first.min(on.len() - 1)];
    ensure!(a == wa, "{}\nstart token of a {} node is {}, should be {}\n{}", d(), RULE_NAMES[n.rule], a, wa, tree_sig(n, &id_idx));
    let wb = if *pos == 0 { -1 } else { on[*pos - 1] };
    // (the end of file that recovery found after deleting a token does not count as consumed)
    let alt = if errs && wb == toks.len() as isize { if *pos < 2 { -1 } else { on[*pos - 2] } } else { wb };
    ensure!(b == wb || b == alt, "{}\nstop token of a {} node is {}, should be {}\n{}", d(), RULE_NAMES[n.rule], b, wb, tree_sig(n, &id_idx));
    *text += &t2;
    if kids.is_empty() {
        *lisp += RULE_NAMES[n.rule];
    } else {
        *lisp += &format!("({} {})", RULE_NAMES[n.rule], kids.join(" "));
    }
    Ok(())
}
pub fn esc(s: &str) -> String {
    s.replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn c14(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(1, 3), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    for _ in 0..s.range(1, 4) {
        let w = gen_input(s, &g, 14);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let (toks, on) = hidden_toks(s, &w, true);
        let opts = Opts { ll1: s.chance(1, 2), listeners: s.draw(3), stream: 0, names: true, ..Default::default() };
        let out = go(&c, &sh, &w, &toks, &opts)?;
        let d = || format!("{}\ntokens {:?}", describe(&c, &w), toks.iter().map(|t| format!("{}@{}", t.text, t.channel)).collect::<Vec<_>>());
        if let Some((got, want)) = &*out.log.bad_stack.borrow() {
            return fail(format!("{}\nrule invocation stack {:?}, active rules {:?}", d(), got, want));
        }
        let root = out.root.as_ref().unwrap();
        let mut pos = 0;
        let mut text = String::new();
        let mut lisp = String::new();
        check_node(&c, &d, &toks, root, None, &on, &mut pos, &mut text, &mut lisp, !out.log.errs.borrow().is_empty())?;
        ensure!(out.tree_str == lisp, "{}\nto_string_tree differs\n got {}\nwant {}", d(), out.tree_str, lisp);
        let bad = !out.log.errs.borrow().is_empty();
        st.class(if bad { "tree with errors" } else { "clean tree" });
        st.class_if(toks.len() > w.len(), "hidden tokens");
        st.class_if(opts.listeners > 0, "with embedded listeners");
        note(st, &c, &w, w.len() >= 2 && g.rules.len() >= 2, !bad);
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn tree_events(c: &Compiled, n: &std::rc::Rc<Node<'static>>, embedded: bool, all: bool, out: &mut Vec<Ev>) {
    use antlr_rust::tree::Tree;
    let kids: Vec<_> = n.get_children().collect();
    let mut i = 0;
    // a left-recursive operator node is entered once its first operand is complete
    if embedded {
        if let (R::Lr { .. }, Some(k)) = (&c.g.rules[n.rule], kids.first()) {
            if let Some(r) = as_rule(k) {
                if r.rule == n.rule {
                    tree_events(c, &r, embedded, all, out);
                    i = 1;
                }
            }
        }
    }
    if all || !n.base {
        out.push(Ev::Enter(n.rule, n.id));
    }
    for k in &kids[i..] {
        match leaf_kind(k) {
            Some((t, true)) => out.push(Ev::Err(t)),
            Some((t, false)) => out.push(Ev::Term(t)),
            None => tree_events(c, &as_rule(k).unwrap(), embedded, all, out),
        }
    }
    if all || !n.base {
        out.push(Ev::Exit(n.rule, n.id));
    }
}

/// the last child's result, all the way down
fn last_of(n: &std::rc::Rc<Node<'static>>) -> Option<isize> {
    use antlr_rust::tree::Tree;
    let k = n.get_children().last()?;
    match leaf_kind(&k) {
        Some((t, false)) => Some(t),
        Some((_, true)) => None,
        None => last_of(&as_rule(&k).unwrap()),
    }
}

fn c15(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(1, 3), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    for _ in 0..s.range(1, 4) {
        let w = gen_input(s, &g, 14);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let mut opts = Opts { ll1: s.chance(1, 2), ..Default::default() };
        // listeners are attached, or also detached again
        if s.chance(1, 2) {
            opts.lops = (0..s.range(1, 8)).map(|_| s.draw(64) as u8).collect();
        } else {
            opts.listeners = s.range(1, 3);
        }
        let out = go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        let root = out.root.as_ref().unwrap();
        let d = || describe(&c, &w);
        let heard: Vec<usize> = if opts.lops.is_empty() { (0..opts.listeners).collect() } else { out.log.heard.borrow().clone() };
        if let Some(m) = &*out.log.bad_listener.borrow() {
            return fail(format!("{}\nlistener operations {:?}: {}", d(), opts.lops.iter().map(|o| (o % 8, o / 8)).collect::<Vec<_>>(), m));
        }
        st.class_if(!opts.lops.is_empty(), "listeners attached and detached");
        let nl = heard.len();
        // finished tree: walker and visitors see every node once, parents around children, in order
        let mut want = vec![];
        tree_events(&c, root, false, false, &mut want);
        let got = guarded("walk", || walk(root))?;
        ensure!(got == want, "{}\nParseTreeWalker events differ\n got {:?}\nwant {:?}", d(), got, want);
        want.clear();
        tree_events(&c, root, false, true, &mut want);
        let got = guarded("visit", || visit(root))?;
        ensure!(got == want, "{}\nvisitor calls differ\n got {:?}\nwant {:?}", d(), got, want);
        let mut lv = vec![];
        leaves(root, &mut lv);
        let wl: Vec<isize> = lv.iter().map(|(i, e)| if *e { -100 - i } else { *i }).collect();
        let nodes = want.iter().filter(|e| matches!(e, Ev::Enter(..))).count();
        let (gl, nr) = guarded("visit with results", || collect(root, None))?;
        ensure!(gl == wl && nr == nodes, "{}\nresults aggregated by the visitor {:?} ({} rule nodes)\nwant {:?} ({})", d(), gl, nr, wl, nodes);
        let cut = s.range(1, 3);
        let (gl, _) = guarded("visit with results", || collect(root, Some(cut)))?;
        let wl2 = cut_leaves(root, cut);
        ensure!(gl == wl2, "{}\nshould_visit_next_child: stop after {} leaves gave {:?}, want {:?}", d(), cut, gl, wl2);
        let gl = guarded("visit with defaults", || last_leaf(root))?;
        let wl3 = last_of(root);
        ensure!(gl == wl3, "{}\na visitor with default aggregation gave {:?}, the last leaf is {:?}", d(), gl, wl3);
        // events sent while parsing
        let evs = out.log.evs.borrow();
        ensure!(evs.iter().all(|e| heard.contains(&e.0)), "{}\nlisteners attached {:?}, events of another: {:?}", d(), heard, evs);
        if nl == 0 {
            st.class("all listeners detached");
            continue;
        }
        let bad = !out.log.errs.borrow().is_empty();
        let per: Vec<Vec<Ev>> = (0..nl).map(|i| evs.iter().filter(|e| e.0 == heard[i]).map(|e| e.1.clone()).collect()).collect();
        for p in &per[1..] {
            ensure!(*p == per[0], "{}\ntwo embedded listeners saw different events", d());
        }
        // listeners are called in registration order on the way in and in reverse order on the way out
        let mut k = 0;
        while k < evs.len() {
            let e = &evs[k].1;
            let rev = matches!(e, Ev::Exit(..));
            for j in 0..nl {
                let (who, e2) = &evs[k + j];
                ensure!(e2 == e && *who == heard[if rev { nl - 1 - j } else { j }], "{}\nlistener order broken at event {:?}", d(), e);
            }
            k += nl;
        }
        if !bad {
            let mut want = vec![];
            tree_events(&c, root, true, false, &mut want);
            ensure!(per[0] == want, "{}\nevents sent while parsing differ\n got {:?}\nwant {:?}", d(), per[0], want);
        } else {
            // every rule entered once and left once, properly nested, leaves in input order
            let mut stack = vec![];
            let mut seen = std::collections::HashSet::new();
            let mut last = -1;
            let mut left = std::collections::HashSet::new();
            for e in &per[0] {
                match e {
                    Ev::Enter(r, id) => {
                        ensure!(seen.insert(*id), "{}\nrule {} node entered twice: {:?}", d(), r, per[0]);
                        stack.push((*r, *id));
                    }
                    Ev::Exit(r, id) => {
                        if !left.insert(*id) {
                            // an operand of a left-recursive rule is left before the operator is chosen: when
                            // that fails, the generated code leaves it again
                            ensure!(matches!(g.rules[*r], R::Lr { .. }), "{}\nrule {} node left twice: {:?}", d(), r, per[0]);
                            continue;
                        }
                        ensure!(stack.pop() == Some((*r, *id)), "{}\nexit of {} does not match the last rule entered: {:?}", d(), RULE_NAMES[*r], per[0]);
                    }
                    Ev::Term(t) | Ev::Err(t) => {
                        ensure!(*t > last || *t == w.len() as isize, "{}\nleaf events out of order: {:?}", d(), per[0]);
                        last = *t;
                    }
                }
            }
            ensure!(stack.is_empty(), "{}\nrules entered but never left: {:?}", d(), per[0]);
            let mut want = vec![];
            tree_events(&c, root, true, false, &mut want);
            let ids: usize = want.iter().filter(|e| matches!(e, Ev::Enter(..))).count();
            ensure!(ids == seen.len(), "{}\n{} rule nodes in the tree, {} entered", d(), ids, seen.len());
            if !g.rules.iter().any(|r| matches!(r, R::Lr { .. })) {
                // conjured up tokens are not announced
                want.retain(|e| !matches!(e, Ev::Err(-1)));
                // the alternative of a labelled rule is entered after a token was deleted in front of it
                let norm = |v: &[Ev]| {
                    let mut v = v.to_vec();
                    for i in 1..v.len() {
                        let mut j = i;
                        while j > 0 && matches!((&v[j - 1], &v[j]), (Ev::Err(_), Ev::Enter(r, _)) if g.labelled[*r]) {
                            v.swap(j - 1, j);
                            j -= 1;
                        }
                    }
                    v
                };
                let want = norm(&want);
                ensure!(norm(&per[0]) == want, "{}\nevents sent while parsing (with errors) differ\n got {:?}\nwant {:?}", d(), per[0], want);
                st.class("events of an erroneous parse compared in full");
            }
        }
        st.class(if bad { "tree with errors" } else { "clean tree" });
        st.class_if(want.len() > 20, "20 or more events");
        note(st, &c, &w, want.len() >= 8, !bad);
    }
    Ok(())
}
fn cut_leaves(n: &std::rc::Rc<Node<'static>>, cut: usize) -> Vec<isize> {
    use antlr_rust::tree::Tree;
    let mut out = vec![];
    for ch in n.get_children() {
        if out.len() >= cut {
            break;
        }
        match leaf_kind(&ch) {
            Some((i, e)) => out.push(if e { -100 - i } else { i }),
            None => out.extend(cut_leaves(&as_rule(&ch).unwrap(), cut)),
        }
    }
    out
}

// ---------------------------------------------------------------- C16

fn c16(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(2, 3), preds: true, entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let sh2 = sh.fresh();
    let nums = pred_numbers(&g);
    for _ in 0..s.range(1, 5) {
        // predicates may look at the position: one set of values for every residue of the token index
        let k = s.range(1, 4);
        let truth: Vec<bool> = (0..g.npred * k).map(|_| s.chance(1, 2)).collect();
        let (w, r) = match pick_input(s, st, &c, 14, &truth) {
            Some(x) => x,
            None => continue,
        };
        let opts = Opts { truth: truth.clone(), ll1: s.chance(1, 2), ..Default::default() };
        let out = go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        judge(&c, &w, &r.exp, &out).map_err(|f| Fail { msg: format!("predicates {:?}\n{}", truth, f.msg) })?;
        if let Some((a, b)) = out.log.strayed.get() {
            return fail(format!("{}\npredicates {:?}: in the decision at token {} a predicate was evaluated at token {}", describe(&c, &w), truth, a, b));
        }
        ensure!(!out.bad_pred, "{}\na predicate was asked for that the grammar does not contain", describe(&c, &w));
        // no prediction chooses an alternative all of whose entrances are shut
        let sll = s.chance(1, 2);
        let out2 = if sll { Some(go(&c, &sh2, &w, &plain_toks(&w), &Opts { mode: 0, ..opts.clone() })?) } else { None };
        let sll = out2.as_ref().map(|o| o.log.preds.borrow().clone()).unwrap_or_default();
        for (dec, at, alt) in out.log.preds.borrow().iter().chain(&sll) {
            if *alt > 0 && c.shut(*dec, *alt as usize, &truth, &nums, *at as usize) {
                st.class("alternative shut by its predicates");
                ensure!(
                    c.may_end(*dec, *alt as usize, &w, *at as usize),
                    "{}\npredicates {:?}: decision {} at token {} chose alternative {}, which a false predicate shuts",
                    describe(&c, &w),
                    truth,
                    dec,
                    at,
                    alt
                );
            }
        }
        let acc = r.exp.accepted();
        st.class(if acc { "accepted" } else { "rejected" });
        st.class_if(k > 1, "predicates that look at the position");
        st.class_if(r.pred_decided > 0, "a false predicate removed a viable alternative");
        st.class_if(out.log.evals.get() > 0, "predicate evaluated during prediction");
        note(st, &c, &w, r.pred_decided > 0, acc);
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

fn c22(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(1, 3), preds: s.chance(1, 4), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let set = |is: &antlr_rust::interval_set::IntervalSet| -> std::collections::BTreeSet<Option<i32>> {
        let mut v = std::collections::BTreeSet::new();
        for i in -1..=(g.ntok as isize + 2) {
            if i != 0 && is.contains(i) {
                v.insert(Some(i as i32));
            }
        }
        if is.contains(antlr_rust::token::TOKEN_EPSILON) {
            v.insert(None);
        }
        v
    };
    // context-free: every state, asked twice (the second answer comes from the cache)
    for (i, stt) in c.atn.states.iter().enumerate() {
        let want = c.look_state(i);
        for _ in 0..2 {
            let got = guarded("next_tokens", || set(sh.atn.next_tokens(sh.atn.states[i].as_ref())))?;
            ensure!(got == want, "grammar:\n{}\nnext tokens of state {} (type {}): got {:?} want {:?}", show(&g), i, stt.ty, got, want);
        }
    }
    for _ in 0..s.range(1, 3) {
        let w = gen_input(s, &g, 12);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let opts = Opts { ll1: s.chance(1, 2), probe: true, ..Default::default() };
        let out = go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        let probes = out.log.probes.borrow();
        let mut deep = 0;
        for p in probes.iter() {
            let f = c.follows(&p.stack);
            let want: std::collections::BTreeSet<i32> = c.look_exact(p.state, &f).into_iter().map(|x| x.unwrap_or(-1)).collect();
            let got: std::collections::BTreeSet<i32> = p.expected.iter().map(|x| *x as i32).collect();
            deep += (p.stack.len() >= 2) as usize;
            ensure!(got == want, "{}\nexpected tokens at token {} in state {} called from {:?}: got {:?} want {:?}", describe(&c, &w), p.at, p.state, p.stack, got, want);
        }
        // full-context sets of arbitrary states below a real call stack
        if let Some(p) = probes.last() {
            let f = c.follows(&p.stack);
            let rule = c.atn.states[p.state].rule;
            for (i, stt) in c.atn.states.iter().enumerate() {
                if stt.rule != rule {
                    continue;
                }
                let want: std::collections::BTreeSet<Option<i32>> = c.look_exact(i, &f).into_iter().map(|x| Some(x.unwrap_or(-1))).collect();
                let got = guarded("get_expected_tokens", || {
                    // innermost caller first
                    let stack: Vec<isize> = p.stack.iter().rev().copied().collect();
                    set(&sh.atn.get_expected_tokens(i as isize, stack.into_iter()))
                })?;
                ensure!(got == want, "{}\nexpected tokens of state {} called from {:?}: got {:?} want {:?}", describe(&c, &w), i, p.stack, got, want);
            }
        }
        st.class_if(deep > 0, "two or more callers");
        note(st, &c, &w, probes.len() >= 3 && deep > 0, true);
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

/// A pure operator table with distinct operator tokens is unambiguous once precedence and associativity
/// are applied, so parsing a sentence of it reports no ambiguity in any mode.
fn c23_ops(s: &mut Src, st: &mut Stats) -> Check {
    let (e, _) = gen_expr(s);
    let g = e.gram(s.chance(1, 2));
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    for _ in 0..s.range(1, 4) {
        let mut w = vec![];
        let d = s.range(2, 5);
        e.sent(s, d, &mut w);
        w.truncate(40);
        let mut p = 0;
        if c.heavy(&w, HEAVY) || e.parse(&w, &mut p, 0, false).is_none() || p != w.len() {
            st.skipped += 1;
            continue;
        }
        let opts = Opts { mode: 1 + s.draw(2) as u8, ..Default::default() };
        let out = go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        let diags = out.log.diags.borrow();
        for x in diags.iter() {
            ensure!(!matches!(x, Diag::Ambig { .. }), "{}\nambiguity reported in an unambiguous operator grammar: {:?}", describe(&c, &w), x);
        }
        let ops = w.iter().filter(|t| **t > 3).count();
        st.class("operator grammar");
        note(st, &c, &w, ops >= 2, false);
    }
    Ok(())
}

fn c23(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(1, 4) {
        return c23_ops(s, st);
    }
    let o = GOpt { dense: true, lr: s.chance(1, 4), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    // in a left-recursive rule the precedence predicates take part: alternatives they exclude are
    // dropped (or reported without a full-context attempt), so only the weaker claims are checked
    let lr = g.rules.iter().any(|r| matches!(r, R::Lr { .. }));
    let sh = Shared::new(&c.atn);
    for _ in 0..s.range(1, 4) {
        let (w, r) = match pick_input(s, st, &c, 14, &[]) {
            Some(x) => x,
            None => continue,
        };
        let exact = s.chance(1, 2);
        let told = s.chance(1, 2);
        let opts = Opts {
            mode: if exact { 2 } else { 1 },
            extra_diag_listener: told,
            diag_exact_only: s.chance(1, 2),
            stream: if told { s.draw(3) as u8 } else { 0 },
            ..Default::default()
        };
        let toks: Vec<TokSpec> = w.iter().enumerate().map(|(i, t)| TokSpec { ty: *t, channel: 0, text: format!("{}{}.", tname(*t).to_lowercase(), i) }).collect();
        let out = go(&c, &sh, &w, &toks, &opts)?;
        let d = || describe(&c, &w);
        let diags = out.log.diags.borrow();
        let preds = out.log.preds.borrow();
        let acc = r.exp.accepted();
        if told {
            // DiagnosticErrorListener puts every report into words
            let dec = |d: isize| format!("{} ({})", d, RULE_NAMES[c.atn.states[c.atn.decisions[d as usize]].rule]);
            let text = |a: isize, b: isize| -> String { (a..=b).filter_map(|i| toks.get(i as usize)).map(|t| t.text.clone()).collect() };
            let mut want: Vec<(String, isize, isize)> = vec![];
            for x in diags.iter() {
                match x {
                    Diag::Full { dec: k, start, stop, .. } => want.push((format!("reportAttemptingFullContext d={}, input='{}'", dec(*k), text(*start, *stop)), *start, *stop)),
                    Diag::Ctx { dec: k, start, stop, .. } => want.push((format!("reportContextSensitivity d={}, input='{}'", dec(*k), text(*start, *stop)), *start, *stop)),
                    Diag::Ambig { exact: false, .. } if opts.diag_exact_only => {}
                    Diag::Ambig { dec: k, start, stop, alts, .. } => {
                        let a = alts.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ");
                        want.push((format!("reportAmbiguity d={}: ambigAlts={{{}}}, input='{}'", dec(*k), a, text(*start, *stop)), *start, *stop))
                    }
                }
            }
            let errs = out.log.errs.borrow();
            let got: Vec<&ErrRec> = errs.iter().filter(|e| e.msg.starts_with("report")).collect();
            ensure!(
                got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.msg == w.0 && g.tok >= w.1 && g.tok <= w.2),
                "{}\nDiagnosticErrorListener said {:?}\nreports were {:?}",
                d(),
                got.iter().map(|e| (&e.msg, e.tok)).collect::<Vec<_>>(),
                want
            );
        }
        let mut ambig_at: std::collections::HashMap<usize, Vec<usize>> = Default::default();
        let mut open: Option<(usize, isize, isize)> = None;
        for x in diags.iter() {
            let (seq, dec, start, stop) = match x {
                Diag::Full { seq, dec, start, stop, .. } => (*seq, *dec, *start, *stop),
                Diag::Ctx { seq, dec, start, stop, .. } => (*seq, *dec, *start, *stop),
                Diag::Ambig { seq, dec, start, stop, .. } => (*seq, *dec, *start, *stop),
            };
            ensure!(seq < preds.len(), "{}\nreport outside a prediction: {:?}", d(), x);
            let p = preds[seq];
            if open.map_or(false, |o| o.0 < seq && !acc) {
                // an attempt that ends in a syntax error is not followed by another report
                open = None;
            }
            ensure!(p.0 as isize == dec && p.1 == start && stop >= start && stop <= w.len() as isize, "{}\nreport {:?} for prediction {:?}", d(), x, p);
            match x {
                Diag::Full { alts, .. } => {
                    ensure!(open.is_none(), "{}\nfull-context attempt inside another: {:?}", d(), x);
                    ensure!(alts.len() >= 2, "{}\nfull-context attempt with conflicting alternatives {:?}", d(), alts);
                    open = Some((seq, dec, start));
                }
                Diag::Ctx { alt, .. } => {
                    ensure!(open == Some((seq, dec, start)), "{}\ncontext sensitivity reported without a full-context attempt: {:?}", d(), x);
                    open = None;
                    ensure!(*alt == p.2, "{}\ncontext sensitivity reported for alternative {}, but {} was predicted", d(), alt, p.2);
                    if acc && !lr {
                        // truthful: that alternative is the only one that leads to a complete parse
                        ensure!(r.dlog[seq].1 == vec![*alt as usize], "{}\nreported as resolved by context to {}, but {:?} all lead to a parse", d(), alt, r.dlog[seq].1);
                    }
                }
                Diag::Ambig { alts, exact: ex, .. } => {
                    ensure!(open == Some((seq, dec, start)) || (lr && open.is_none() && !*ex), "{}\nambiguity reported without a full-context attempt: {:?}", d(), x);
                    let via_preds = open.is_none();
                    open = None;
                    ensure!(alts.len() >= 2, "{}\nambiguity between {:?}", d(), alts);
                    ensure!(p.2 == alts[0] as isize, "{}\nambiguity {:?} resolved to {}, not to the lowest alternative", d(), alts, p.2);
                    ensure!(!exact || *ex || via_preds, "{}\ninexact ambiguity reported in exact mode: {:?}", d(), x);
                    if acc {
                        let t = &r.dlog[seq].1;
                        if exact && !lr {
                            ensure!(t == alts, "{}\nambiguity reported between {:?}; alternatives that lead to a parse: {:?}", d(), alts, t);
                        } else {
                            ensure!(t.contains(&alts[0]), "{}\nambiguity reported between {:?}; alternatives that lead to a parse: {:?}", d(), alts, t);
                        }
                        ambig_at.insert(seq, alts.clone());
                    }
                }
            }
        }
        if acc && exact && !lr {
            // complete: every decision with several alternatives that lead to a parse is reported
            for (i, (pos, alts)) in r.dlog.iter().enumerate() {
                if alts.len() > 1 {
                    ensure!(ambig_at.contains_key(&i), "{}\ndecision {} at token {} has the alternatives {:?}, no ambiguity reported", d(), preds[i].0, pos, alts);
                }
            }
        }
        let na = diags.iter().filter(|x| matches!(x, Diag::Ambig { .. })).count();
        let nc = diags.iter().filter(|x| matches!(x, Diag::Ctx { .. })).count();
        st.class(if acc { "accepted" } else { "rejected" });
        st.class_if(na > 0, "ambiguity reported");
        st.class_if(nc > 0, "context sensitivity reported");
        note(st, &c, &w, acc && na + nc > 0, na > 0 && nc > 0);
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

fn c24(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(1, 2), preds: s.chance(1, 5), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let truth: Vec<bool> = (0..g.npred).map(|_| s.chance(2, 3)).collect();
    for _ in 0..s.range(1, 3) {
        let w = gen_input(s, &g, 14);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let base = Opts { truth: truth.clone(), ll1: s.chance(1, 2), mode: s.draw(3) as u8, bail: s.chance(1, 5), ..Default::default() };
        let toks = plain_toks(&w);
        let a = go(&c, &sh.fresh(), &w, &toks, &base)?;
        let x = outcome(&a);
        let errs_only = |o: &Out| o.log.errs.borrow().iter().map(|e| format!("{}:{} {} {}\n", e.line, e.col, e.tok, e.msg)).collect::<String>();
        let bad = !a.log.errs.borrow().is_empty();
        let variants: Vec<(&str, Opts)> = vec![
            ("two parse listeners attached", Opts { listeners: 2, ..base.clone() }),
            ("a boxed error strategy", Opts { dyn_strategy: true, ..base.clone() }),
            ("a DiagnosticErrorListener attached", Opts { extra_diag_listener: true, ..base.clone() }),
            ("an UnbufferedTokenStream that keeps all tokens", Opts { stream: 1, ..base.clone() }),
            ("an UnbufferedTokenStream", Opts { stream: 2, ..base.clone() }),
        ];
        for (name, o) in &variants {
            let b = go(&c, &sh.fresh(), &w, &toks, o).map_err(|f| Fail { msg: format!("with {}: {}", name, f.msg) })?;
            let y = outcome(&b);
            if *name == "a DiagnosticErrorListener attached" {
                // it reports through the parser's own listeners: drop its messages
                ensure!(
                    a.root.is_some() == b.root.is_some() && a.root.as_ref().map(|r| tree_sig(r, &id_idx)) == b.root.as_ref().map(|r| tree_sig(r, &id_idx)),
                    "{}\ntree differs with {}",
                    describe(&c, &w),
                    name
                );
            } else {
                ensure!(x == y, "{}\nresult differs with {}:\n{}\nwithout:\n{}", describe(&c, &w), name, y, x);
            }
        }
        // building no tree changes nothing but the tree
        let b = go(&c, &sh.fresh(), &w, &toks, &Opts { trees: false, ..base.clone() })?;
        ensure!(errs_only(&a) == errs_only(&b) && a.index == b.index && a.err == b.err, "{}\nerrors differ when no tree is built:\n{}\nwith a tree:\n{}", describe(&c, &w), errs_only(&b), errs_only(&a));
        if let Some(r) = &b.root {
            let t = tree_sig(r, &id_idx);
            ensure!(!t[1..].contains('(') && !t.contains(' '), "{}\na tree was built although switched off: {}", describe(&c, &w), t);
        }
        // listeners hear the same whether or not a tree is built
        let evs = |trees: bool| -> Result<(String, String), Fail> {
            let o = go(&c, &sh.fresh(), &w, &toks, &Opts { trees, listeners: 2, ..base.clone() })?;
            let e = format!("{:?}", o.log.evs.borrow());
            Ok((e, errs_only(&o)))
        };
        let (e1, r1) = evs(true)?;
        let (e0, r0) = evs(false)?;
        ensure!(e0 == e1, "{}\nevents sent while parsing without building a tree:\n{}\nwith a tree:\n{}", describe(&c, &w), e0, e1);
        ensure!(r0 == r1, "{}\nerrors with listeners attached when no tree is built:\n{}\nwith a tree:\n{}", describe(&c, &w), r0, r1);
        // hidden tokens between the others are invisible to the parser
        let (ht, on) = hidden_toks(s, &w, true);
        let b = go(&c, &sh.fresh(), &w, &ht, &base)?;
        let back = |i: isize| -> isize {
            if i < 0 {
                i
            } else {
                on.iter().position(|x| *x == i).map(|x| x as isize).unwrap_or(-99)
            }
        };
        let ta = a.root.as_ref().map(|r| tree_sig(r, &id_idx));
        let tb = b.root.as_ref().map(|r| tree_sig(r, &back));
        ensure!(ta == tb, "{}\ntree with hidden tokens in between:\n{:?}\nwithout:\n{:?}", describe(&c, &w), tb, ta);
        let ea: Vec<(isize, &'static str)> = a.log.errs.borrow().iter().map(|e| (e.tok, e.kind)).collect();
        let eb: Vec<(isize, &'static str)> = b.log.errs.borrow().iter().map(|e| (back(e.tok), e.kind)).collect();
        ensure!(ea == eb, "{}\nerrors with hidden tokens in between {:?}, without {:?}", describe(&c, &w), eb, ea);
        // inline LL(1) tests and adaptive prediction agree on valid inputs
        if !bad && a.err.is_none() && (g.start == 0 || a.index as usize == w.len()) {
            let b = go(&c, &sh.fresh(), &w, &toks, &Opts { ll1: !base.ll1, ..base.clone() })?;
            ensure!(outcome(&b) == x, "{}\nLL(1) tests and adaptive prediction disagree:\n{}\n{}", describe(&c, &w), x, outcome(&b));
        }
        st.class(if bad { "rejected" } else { "accepted" });
        note(st, &c, &w, w.len() >= 2 && !a.log.preds.borrow().is_empty(), bad);
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

pub fn set_text(v: &std::collections::BTreeSet<i32>) -> String {
    let n: Vec<String> = v.iter().map(|t| display_name(*t)).collect();
    match n.len() {
        0 => "{}".into(),
        1 => n[0].clone(),
        _ => format!("{{{}}}", n.join(", ")),
    }
}

fn c26(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(1, 3), preds: s.chance(1, 6), ntok: (2, 9), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let truth: Vec<bool> = (0..g.npred).map(|_| s.chance(1, 2)).collect();
    for _ in 0..s.range(1, 4) {
        let w = bad_input(s, &g, 14);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let (toks, on) = hidden_toks(s, &w, true);
        let opts = Opts { ll1: s.chance(1, 2), probe: true, truth: truth.clone(), ..Default::default() };
        let d = || format!("{}\ntokens {:?}", describe(&c, &w), toks.iter().map(|t| format!("{}@{}", t.text, t.channel)).collect::<Vec<_>>());
        let out = if !debug() && s.chance(1, 3) {
            // the listener every parser starts with prints the same
            let (out, text) = printed(|| go(&c, &sh, &w, &toks, &opts));
            let out = out?;
            let want: String = out.log.errs.borrow().iter().map(|e| format!("line {}:{} {}\n", e.line, e.col, e.msg)).collect();
            ensure!(text == want, "{}\nprinted on standard error {:?}\nerrors reported           {:?}", d(), text, want);
            out
        } else {
            go(&c, &sh, &w, &toks, &opts)?
        };
        // line and column of every token
        let mut lc = vec![];
        let (mut l, mut col) = (1isize, 0isize);
        for t in &toks {
            lc.push((l, col));
            for ch in t.text.chars() {
                if ch == '\n' {
                    l += 1;
                    col = 0
                } else {
                    col += 1
                }
            }
        }
        lc.push((l, col));
        let text = |i: isize| if i as usize == toks.len() { "<EOF>".to_string() } else { toks[i as usize].text.clone() };
        let errs = out.log.errs.borrow();
        for e in errs.iter() {
            ensure!(on.contains(&e.tok), "{}\noffending token {} is not one the parser sees: {}", d(), e.tok, e.msg);
            ensure!((e.line, e.col) == lc[e.tok as usize], "{}\nreported at {}:{}, the offending token is at {:?}: {}", d(), e.line, e.col, lc[e.tok as usize], e.msg);
            let exp_at = |state: usize, stack: &[isize]| -> String {
                let f = c.follows(stack);
                set_text(&c.look_exact(state, &f).into_iter().map(|x| x.unwrap_or(-1)).collect())
            };
            let q = format!("'{}'", esc(&text(e.tok)));
            match e.kind {
                "inline" => {
                    ensure!(e.tok == e.at, "{}\noffending token {} but the parser is at {}", d(), e.tok, e.at);
                    let x = exp_at(e.state as usize, &e.stack);
                    let m1 = format!("extraneous input {} expecting {}", q, x);
                    let m2 = format!("missing {} at {}", x, q);
                    ensure!(e.msg == m1 || e.msg == m2, "{}\nmessage {:?}\nwant {:?}\n  or {:?}", d(), e.msg, m1, m2);
                }
                "mismatch" => {
                    ensure!(e.tok == e.at && e.etok == e.tok, "{}\noffending token {} / {} but the parser is at {}", d(), e.tok, e.etok, e.at);
                    let (state, stack) = match &e.saved {
                        Some((s0, k)) if *s0 as isize == e.estate => (*s0, k.clone()),
                        _ => (e.state as usize, e.stack.clone()),
                    };
                    ensure!(state as isize == e.estate, "{}\nerror raised for state {}, the parser is in {}", d(), e.estate, e.state);
                    let m = format!("mismatched input {} expecting {}", q, exp_at(state, &stack));
                    ensure!(e.msg == m, "{}\nmessage {:?}\nwant    {:?}", d(), e.msg, m);
                }
                "no-alt" => {
                    ensure!(e.start == e.at && e.start <= e.tok && e.etok == e.tok, "{}\nfailed prediction {}..{} reported at {}", d(), e.start, e.tok, e.at);
                    let mut t = String::new();
                    for i in e.start..=e.tok {
                        if (i as usize) < toks.len() {
                            t += &text(i);
                        }
                    }
                    if e.start as usize == toks.len() {
                        t = "<EOF>".into();
                    }
                    let m = format!("no viable alternative at input '{}'", esc(&t));
                    ensure!(e.msg == m, "{}\nmessage {:?}\nwant    {:?}", d(), e.msg, m);
                    // the offending token is the one no alternative can take, with the callers there are or with any callers
                    if let Some(dec) = e.dec {
                        let (p, q) = (on.iter().position(|x| *x == e.start).unwrap(), on.iter().position(|x| *x == e.tok).unwrap());
                        let f = c.follows(&e.stack);
                        if let (Some(any), Some(here)) = (c.dead_at(dec, None, &w, p), c.dead_at(dec, Some(&f[..]), &w, p)) {
                            ensure!(q == any || q == here, "{}\ndecision {} at token {}: token {} is reported, but the first one no alternative can take is {} ({} whatever the callers)", d(), dec, p, q, here, any);
                            st.class(if q > p { "failed behind its first token" } else { "failed on its first token" });
                        }
                    }
                }
                "pred" => {
                    ensure!(e.msg.starts_with(&format!("rule {} failed predicate: ", RULE_NAMES[e.rule])), "{}\nmessage {:?}", d(), e.msg);
                    ensure!(e.tok == e.at, "{}\noffending token {} but the parser is at {}", d(), e.tok, e.at);
                }
                _ => return fail(format!("{}\nunexpected error {:?}", d(), e)),
            }
            st.class(e.kind);
        }
        // the consumed part of a wrong input never goes past the point where it stopped being a beginning of a sentence
        if let (Some(e), 0) = (errs.first(), g.npred) {
            let p = on.iter().position(|x| *x == e.at).unwrap();
            ensure!(viable_prefix(&c, &w[..p]), "{}\nfirst error at token {}, but the tokens before it do not begin any sentence: {}", d(), p, e.msg);
        }
        note(st, &c, &w, !errs.is_empty(), errs.len() >= 2);
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

/// what the default strategy has to do at every call, computed from the automaton and the token list
fn c27(s: &mut Src, st: &mut Stats) -> Check {
    use std::collections::BTreeSet;
    let o = GOpt { dense: s.chance(1, 2), preds: s.chance(1, 8), ntok: (2, 9), entry: true, eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let truth: Vec<bool> = (0..g.npred).map(|_| s.chance(2, 3)).collect();
    for _ in 0..s.range(1, 4) {
        let w = bad_input(s, &g, 14);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let (toks, on) = if s.chance(1, 2) { hidden_toks(s, &w, true) } else { (plain_toks(&w), (0..=w.len() as isize).collect()) };
        let opts = Opts { ll1: s.chance(1, 2), monitor: true, truth: truth.clone(), mode: s.draw(3) as u8, trees: s.chance(3, 4), ..Default::default() };
        let out = go(&c, &sh, &w, &toks, &opts)?;
        let steps = out.log.steps.borrow();
        let errs = out.log.errs.borrow();
        let mut lc = vec![];
        let (mut l, mut col) = (1isize, 0isize);
        for t in &toks {
            lc.push((l, col));
            for ch in t.text.chars() {
                if ch == '\n' {
                    l += 1;
                    col = 0
                } else {
                    col += 1
                }
            }
        }
        lc.push((l, col));
        // positions: index into `w` (EOF = w.len()) <-> token index
        let pos = |i: isize| on.iter().position(|x| *x == i);
        let at = |p: usize| if p < w.len() { w[p] } else { -1 };
        let nx = |p: usize| (p + 1).min(w.len());
        let exact = |state: usize, stack: &[isize]| -> BTreeSet<i32> { c.look_exact(state, &c.follows(stack)).into_iter().map(|x| x.unwrap_or(-1)).collect() };
        let recset = |stack: &[isize]| -> BTreeSet<i32> { c.follows(stack).into_iter().flat_map(|f| c.look_state(f)).flatten().collect() };
        let skip = |mut p: usize, set: &BTreeSet<i32>| {
            while p < w.len() && !set.contains(&w[p]) {
                p += 1;
            }
            p
        };
        // model
        let mut rec = false;
        let mut nerr = 0usize;
        let mut last: Option<usize> = None;
        let mut states: BTreeSet<usize> = BTreeSet::new();
        let mut conjured: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut repaired = 0;
        for (k, x) in steps.iter().enumerate() {
            let d = || format!("{}\ntokens {:?}\ncall {} of the strategy: {:?} in state {}, rules entered from {:?}, input position {}, tokens {} {}", describe(&c, &w), toks.iter().map(|t| format!("{}@{}", t.text, t.channel)).collect::<Vec<_>>(), k, x.ask, x.state, x.stack, x.before.0, display_name(x.la1), display_name(x.la2));
            let Some(p) = pos(x.before.0) else { return fail(format!("{}\nthe parser is at a token it does not see", d())) };
            let Some(q) = pos(x.after.0) else { return fail(format!("{}\nleft at token {}, which the parser does not see", d(), x.after.0)) };
            ensure!(x.la1 == at(p) && x.la2 == at(nx(p)), "{}\nlookahead is not the input", d());
            ensure!(x.before.1 == rec, "{}\nrecovery mode is {} before the call, should be {}", d(), x.before.1, rec);
            ensure!(x.before.2 == nerr, "{}\n{} errors reported before the call, should be {}", d(), x.before.2, nerr);
            let mut want = p;
            let mut ok = true;
            let mut report: Option<&str> = None;
            macro_rules! settle {
                () => {{
                    rec = false;
                    last = None;
                    states.clear();
                    conjured.clear();
                }};
            }
            match x.ask {
                Ask::Match => settle!(),
                Ask::Report => {
                    if !rec {
                        rec = true;
                        report = Some("");
                    }
                }
                Ask::Inline => {
                    let e = exact(x.state, &x.stack);
                    let target = succ(&c.atn.states[x.state].tr[0]);
                    if e.contains(&at(nx(p))) {
                        if !rec {
                            report = Some("extraneous input ");
                        }
                        settle!();
                        want = nx(nx(p));
                        let i = on[nx(p)];
                        ensure!(x.tok.as_ref().map(|t| t.0) == Some(i), "{}\nthe token after the superfluous one is {}, taken as matched: {:?}", d(), i, x.tok);
                        st.class("deletion");
                        repaired += 1;
                    } else if exact(target, &x.stack).contains(&at(p)) && !conjured.contains(&(p, x.state)) {
                        conjured.insert((p, x.state));
                        if !rec {
                            report = Some("missing ");
                        }
                        rec = true;
                        let ty = *e.iter().next().unwrap();
                        // (the text of an EOF token is always the same)
                        let text = if ty == -1 { "<EOF>".to_string() } else { format!("<missing {}>", display_name(ty)) };
                        let Some(t) = &x.tok else { return fail(format!("{}\nthe missing token was not supplied", d())) };
                        ensure!((t.0, t.1, &t.2) == (-1, ty, &text), "{}\nsupplied token {:?}, should be type {} text {:?} index -1", d(), t, ty, text);
                        if p < w.len() {
                            ensure!((t.3, t.4) == lc[on[p] as usize], "{}\nsupplied token is at {}:{}, the current one at {:?}", d(), t.3, t.4, lc[on[p] as usize]);
                        } else if toks.len() == w.len() {
                            let b = lc[w.len().saturating_sub(1)];
                            ensure!((t.3, t.4) == b, "{}\nsupplied token is at {}:{}, the last one at {:?}", d(), t.3, t.4, b);
                        }
                        st.class("insertion");
                        repaired += 1;
                    } else {
                        ok = false;
                        st.class("no inline repair");
                    }
                }
                Ask::Recover => {
                    if last == Some(p) && states.contains(&x.state) {
                        want = nx(p).min(w.len());
                        st.class("forced progress");
                    }
                    last = Some(want);
                    states.insert(x.state);
                    let r = recset(&x.stack);
                    want = skip(want, &r);
                    st.class(if want > p { "resynchronized by skipping" } else { "resynchronized in place" });
                    if x.stack.len() >= 2 {
                        let inner = recset(&x.stack[x.stack.len() - 1..]);
                        if skip(p, &inner) != want {
                            st.class("resynchronized on an outer rule");
                        }
                    }
                }
                Ask::Sync => {
                    let look = c.look_state(x.state);
                    if !rec && !look.contains(&Some(at(p))) && !look.contains(&None) {
                        let ty = c.atn.states[x.state].ty;
                        if ty == PLUS_LOOP_BACK || ty == STAR_LOOP_BACK {
                            report = Some("extraneous input ");
                            rec = true;
                            let mut e = exact(x.state, &x.stack);
                            e.extend(recset(&x.stack));
                            want = skip(p, &e);
                            st.class("sync skipped in a loop");
                        } else if exact(x.state, &x.stack).contains(&at(nx(p))) {
                            report = Some("extraneous input ");
                            settle!();
                            want = nx(p);
                            st.class("sync deletion");
                            repaired += 1;
                        } else {
                            ok = false;
                            st.class("sync failed");
                        }
                    }
                }
            }
            ensure!(x.ok == ok, "{}\n{}", d(), if ok { "gave up, but the input can be repaired here" } else { "claims to have repaired the input" });
            ensure!(q == want, "{}\nleft the input at position {}, should be {} (tokens the parser sees, from 0)", d(), q, want);
            ensure!(x.after.2 - x.before.2 == report.is_some() as usize, "{}\n{} errors reported, should be {}", d(), x.after.2 - x.before.2, report.is_some() as usize);
            if let Some(m) = report {
                ensure!(errs[nerr].msg.starts_with(m), "{}\nreported {:?}, should begin with {:?}", d(), errs[nerr].msg, m);
                nerr += 1;
            }
            ensure!(x.after.1 == rec, "{}\nrecovery mode is {} after the call, should be {}", d(), x.after.1, rec);
        }
        ensure!(errs.len() == nerr, "{}\n{} errors were reported, {} of them by the strategy", describe(&c, &w), errs.len(), nerr);
        note(st, &c, &w, nerr > 0, nerr >= 2 && repaired > 0);
    }
    Ok(())
}

const ORACLE: &[&str] = &[];
macro_rules! prop {
    ($id:expr, $f:expr, $q:expr, $t:expr, $rule:expr) => {
        Prop { id: $id, rule: $rule, f: $f, directed: None, quick: $q, thorough: $t, assumptions: ORACLE }
    };
}
pub fn props() -> Vec<Prop> {
    vec![
        prop!("C07", c07, 60000, 3000000, "random grammar (plain and left-recursive rules, blocks, (non-)greedy ?/*/+, sets, wildcard) compiled to an ATN as the ANTLR tool would, 1-5 inputs (derived sentences, mutated sentences, noise) parsed with the generated-code call sequence; oracle: first-viable-alternative reference parser (verdict, tree, every prediction). Non-trivial: accepted input of >=2 tokens with >=2 decisions"),
        prop!("C08", c08, 60000, 3000000, "random operator table (binary left/right, prefix, postfix, ternary, index; prefix operators may share a binary operator's token) as a left-recursive rule, 4 expressions each; oracle: precedence climbing over the token string. Non-trivial: accepted expression with >=2 operators"),
        prop!("C09", c09, 30000, 1500000, "random grammar, 1-3 inputs, each parsed from cold caches in SLL, LL, LL_EXACT_AMBIG_DETECTION and SLL+bail; oracle: reference parser, SLL may only differ by reporting an error. Non-trivial: input of >=2 tokens that needs full-context prediction"),
        prop!("C10", c10, 30000, 1500000, "random grammar (a quarter with predicates), 2-7 parses (inputs, repeated inputs, changed tails; mixed prediction modes, strategies and predicate values) over one DFA cache; oracle: the same parse over cold caches (tree, errors, predictions, reports). Non-trivial: parse over a warm cache with >=1 prediction and >=2 tokens"),
        prop!("C12", c12, 40000, 2000000, "random grammar, 1-5 damaged inputs with the default strategy in all modes; invariants over the recovery (termination, every token once in the tree, error nodes, monotone error positions, marker discipline). Non-trivial: input with >=1 reported error"),
        prop!("C13", c13, 40000, 2000000, "random grammar, 1-5 inputs with the bail strategy; oracle: reference parser and viable-prefix simulation. Non-trivial: cancelled parse of >=2 tokens"),
        prop!("C14", c14, 30000, 1500000, "random grammar, 1-4 inputs with hidden tokens in between, clean and damaged; invariants of every node of the tree. Non-trivial: >=2 tokens and >=2 rules"),
        prop!("C15", c15, 30000, 1500000, "random grammar, 1-4 inputs with 1-3 embedded listeners, then walker and visitors over the tree; oracle: event sequence computed from the tree. Non-trivial: >=8 events"),
        prop!("C16", c16, 40000, 2000000, "random grammar with semantic predicates on left edges, random truth values, 1-5 inputs over one cache; oracle: reference parser. Non-trivial: a false predicate removed an otherwise viable alternative"),
        prop!("C22", c22, 20000, 1000000, "random grammar: next tokens of every state, expected tokens in front of every match of 1-3 parses and of every state of the innermost rule; oracle: exhaustive automaton walk with the real call stack. Non-trivial: >=3 probes, one with >=2 callers"),
        prop!("C23", c23, 40000, 2000000, "random ambiguous grammar, 1-4 inputs, LL or exact mode; oracle: the alternatives that lead to a complete parse at every decision. Non-trivial: sentence with an ambiguity or context-sensitivity report"),
        prop!("C24", c24, 15000, 750000, "random grammar, 1-3 inputs, each parsed under 8 configurations (listeners, boxed strategy, diagnostic listener, three token streams, no tree, listeners with and without a tree, hidden tokens, LL(1) tests vs adaptive prediction). Non-trivial: >=2 tokens and >=1 prediction"),
        prop!("C26", c26, 30000, 1500000, "random grammar over 9 tokens with literal, symbolic and no names, 1-4 damaged inputs with hidden tokens and line breaks; oracle: message text computed from the automaton, token positions, viable-prefix simulation. Non-trivial: >=1 reported error"),
        prop!("C27", c27, 30000, 1500000, "random grammar, 1-4 damaged inputs (half with hidden tokens) parsed with a recording wrapper around the default strategy; oracle: model of the strategy (single-token deletion, insertion, resynchronization set of all callers, loop sync, recovery mode, forced progress) over the automaton, compared at every call. Non-trivial: >=1 reported error"),
    ]
}
