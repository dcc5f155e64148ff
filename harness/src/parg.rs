//! Parser grammars: generator, compiler to ATN (mirrors what the ANTLR tool emits), reference recognizer.
use crate::atnc::*;
use crate::engine::Src;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Tok(i32),
    Set(Vec<i32>),
    NotSet(Vec<i32>),
    Wild,
    Rule(usize, u32),
    /// semantic predicate, index into the predicate table
    Pred(usize),
    /// `{}`; has an edge in the ATN but no effect
    Act,
    Blk(Vec<Vec<P>>),
    Opt(Vec<Vec<P>>, bool),
    Star(Vec<Vec<P>>, bool),
    Plus(Vec<Vec<P>>, bool),
}

#[derive(Clone, Debug)]
pub struct Op {
    pub prec: u32,
    /// elements after the left operand
    pub body: Vec<P>,
    /// alternative number in the original (left-recursive) rule
    pub alt: usize,
}

#[derive(Clone, Debug)]
pub enum R {
    Plain { alts: Vec<Vec<P>> },
    /// directly left-recursive rule; every alternative keeps its original number (1-based)
    Lr { prims: Vec<(usize, Vec<P>)>, ops: Vec<Op> },
}

#[derive(Clone, Debug)]
pub struct Gram {
    pub ntok: i32,
    pub rules: Vec<R>,
    pub labelled: Vec<bool>,
    pub npred: usize,
    /// rule a predicate belongs to
    pub pred_rule: Vec<usize>,
    /// the rule a parse starts with; other than r0 only when asked for (then no EOF is matched at the end)
    pub start: usize,
}

/// compiled node: what generated code would contain
#[derive(Clone, Debug)]
pub enum N {
    Tok { st: usize, t: i32 },
    Set { st: usize, set: Vec<i32>, not: bool },
    Wild { st: usize },
    Rule { st: usize, rule: usize, prec: u32 },
    Pred { st: usize, idx: usize },
    Act,
    Blk { st: usize, dec: usize, alts: Vec<Vec<N>> },
    Opt { st: usize, dec: usize, alts: Vec<Vec<N>>, greedy: bool },
    Star { entry: usize, dec: usize, blk: Option<(usize, usize)>, alts: Vec<Vec<N>>, back: usize, greedy: bool },
    Plus { blkst: usize, blkdec: Option<usize>, alts: Vec<Vec<N>>, back: usize, dec: usize, greedy: bool },
}

#[derive(Clone, Debug)]
pub struct CLr {
    pub prim_blk: Option<(usize, usize)>,
    pub prims: Vec<Vec<N>>,
    pub prim_alt: Vec<usize>,
    pub entry: usize,
    pub dec: usize,
    pub blk: Option<(usize, usize)>,
    /// (precpred state, prec, body)
    pub ops: Vec<(usize, u32, Vec<N>)>,
    pub op_alt: Vec<usize>,
    pub back: usize,
}

#[derive(Clone, Debug)]
pub enum CR {
    Plain { start: usize, blk: Option<(usize, usize)>, alts: Vec<Vec<N>> },
    Lr { start: usize, lr: CLr },
}

pub struct Compiled {
    pub g: Gram,
    pub atn: Atn,
    pub rules: Vec<CR>,
    /// per decision: LL(1) token sets per ATN alternative, when the tool would generate an LL(1) switch
    pub ll1: Vec<Option<Vec<Vec<i32>>>>,
    /// my own look-ahead view: stop state of each rule
    pub stops: Vec<usize>,
}

// ---------------------------------------------------------------- compiler

struct B {
    a: Atn,
    removed: Vec<bool>,
    stops: Vec<usize>,
    pred_seen: HashMap<usize, u32>,
    pred_cnt: Vec<u32>,
}

impl B {
    fn st(&mut self, ty: u32, rule: usize) -> usize {
        self.removed.push(false);
        self.a.state(ty, rule)
    }
    fn basic1(&mut self, rule: usize, f: impl FnOnce(usize) -> Tr) -> (usize, usize) {
        let l = self.st(BASIC, rule);
        let r = self.st(BASIC, rule);
        let t = f(r);
        self.a.states[l].tr.push(t);
        (l, r)
    }
    fn elem(&mut self, p: &P, rule: usize) -> (usize, usize, N) {
        match p {
            P::Tok(t) => {
                let (l, r) = self.basic1(rule, |r| Tr::Atom(r, *t));
                (l, r, N::Tok { st: l, t: *t })
            }
            P::Set(s) => {
                let rs = norm(s.iter().map(|x| (*x, *x)).collect());
                let (l, r) = self.basic1(rule, |r| Tr::Set(r, rs));
                (l, r, N::Set { st: l, set: s.clone(), not: false })
            }
            P::NotSet(s) => {
                let rs = norm(s.iter().map(|x| (*x, *x)).collect());
                let (l, r) = self.basic1(rule, |r| Tr::NotSet(r, rs));
                (l, r, N::Set { st: l, set: s.clone(), not: true })
            }
            P::Wild => {
                let (l, r) = self.basic1(rule, Tr::Wild);
                (l, r, N::Wild { st: l })
            }
            P::Rule(i, prec) => {
                let start = self.a.rule_start[*i];
                let (l, r) = self.basic1(rule, |r| Tr::Rule { start, rule: *i, prec: *prec, follow: r });
                (l, r, N::Rule { st: l, rule: *i, prec: *prec })
            }
            P::Pred(i) => {
                let k = self.pred_cnt[rule];
                self.pred_cnt[rule] += 1;
                self.pred_seen.insert(*i, k);
                let (l, r) = self.basic1(rule, |r| Tr::Pred { to: r, rule, idx: k, ctx: false });
                (l, r, N::Pred { st: l, idx: *i })
            }
            P::Act => {
                let (l, r) = self.basic1(rule, |r| Tr::Action { to: r, rule, idx: 0xFFFF, ctx: false });
                (l, r, N::Act)
            }
            P::Blk(alts) => {
                let (hs, ns) = self.alts(alts, rule);
                if hs.len() == 1 {
                    panic!("single-alternative block");
                }
                let s = self.st(BLOCK_START, rule);
                let dec = self.a.decision(s);
                let e = self.mk_block(s, &hs, rule);
                (s, e, N::Blk { st: s, dec, alts: ns })
            }
            P::Opt(alts, greedy) => {
                let (hs, ns) = self.alts(alts, rule);
                let s = self.st(BLOCK_START, rule);
                let dec = self.a.decision(s);
                let e = self.mk_block(s, &hs, rule);
                self.a.states[s].nongreedy = !greedy;
                if *greedy {
                    self.a.eps(s, e);
                } else {
                    self.a.states[s].tr.insert(0, Tr::Eps(e));
                }
                (s, e, N::Opt { st: s, dec, alts: ns, greedy: *greedy })
            }
            P::Star(alts, greedy) => {
                let (hs, ns) = self.alts(alts, rule);
                let (entry, end, dec, blk, back) = self.star(&hs, *greedy, rule);
                (entry, end, N::Star { entry, dec, blk, alts: ns, back, greedy: *greedy })
            }
            P::Plus(alts, greedy) => {
                let (hs, ns) = self.alts(alts, rule);
                let s = self.st(PLUS_BLOCK_START, rule);
                let blkdec = if hs.len() > 1 { Some(self.a.decision(s)) } else { None };
                let e = self.mk_block(s, &hs, rule);
                let back = self.st(PLUS_LOOP_BACK, rule);
                self.a.states[back].nongreedy = !greedy;
                let dec = self.a.decision(back);
                let end = self.st(LOOP_END, rule);
                self.a.states[end].extra = back;
                self.a.eps(e, back);
                if *greedy {
                    self.a.eps(back, s);
                    self.a.eps(back, end);
                } else {
                    self.a.eps(back, end);
                    self.a.eps(back, s);
                }
                (s, end, N::Plus { blkst: s, blkdec, alts: ns, back, dec, greedy: *greedy })
            }
        }
    }
    fn star(&mut self, hs: &[(usize, usize)], greedy: bool, rule: usize) -> (usize, usize, usize, Option<(usize, usize)>, usize) {
        let s = self.st(STAR_BLOCK_START, rule);
        let blk = if hs.len() > 1 { Some((s, self.a.decision(s))) } else { None };
        let e = self.mk_block(s, hs, rule);
        let entry = self.st(STAR_LOOP_ENTRY, rule);
        self.a.states[entry].nongreedy = !greedy;
        let dec = self.a.decision(entry);
        let end = self.st(LOOP_END, rule);
        let back = self.st(STAR_LOOP_BACK, rule);
        self.a.states[end].extra = back;
        if greedy {
            self.a.eps(entry, s);
            self.a.eps(entry, end);
        } else {
            self.a.eps(entry, end);
            self.a.eps(entry, s);
        }
        self.a.eps(e, back);
        self.a.eps(back, entry);
        (entry, end, dec, blk, back)
    }
    fn alts(&mut self, alts: &[Vec<P>], rule: usize) -> (Vec<(usize, usize)>, Vec<Vec<N>>) {
        let mut hs = vec![];
        let mut ns = vec![];
        for a in alts {
            let (l, r, n) = self.alt(a, rule);
            hs.push((l, r));
            ns.push(n);
        }
        (hs, ns)
    }
    fn alt(&mut self, seq: &[P], rule: usize) -> (usize, usize, Vec<N>) {
        if seq.is_empty() {
            let (l, r) = self.basic1(rule, Tr::Eps);
            return (l, r, vec![]);
        }
        let els: Vec<(usize, usize, N)> = seq.iter().map(|p| self.elem(p, rule)).collect();
        let (l, r) = self.join(&els.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>());
        (l, r, els.into_iter().map(|x| x.2).collect())
    }
    fn join(&mut self, els: &[(usize, usize)]) -> (usize, usize) {
        for i in 0..els.len() - 1 {
            let (l, r) = els[i];
            let nl = els[i + 1].0;
            let ok = self.a.states[l].ty == BASIC
                && self.a.states[r].ty == BASIC
                && self.a.states[l].tr.len() == 1
                && succ(&self.a.states[l].tr[0]) == r;
            if ok {
                set_succ(&mut self.a.states[l].tr[0], nl);
                self.removed[r] = true;
            } else {
                self.a.eps(r, nl);
            }
        }
        (els[0].0, els[els.len() - 1].1)
    }
    fn mk_block(&mut self, start: usize, hs: &[(usize, usize)], rule: usize) -> usize {
        let end = self.st(BLOCK_END, rule);
        self.a.states[start].extra = end;
        for (l, r) in hs {
            self.a.eps(start, *l);
            self.a.eps(*r, end);
            self.tail_eps(*l);
        }
        end
    }
    /// the tool's TailEpsilonRemover
    fn tail_eps(&mut self, from: usize) {
        let mut seen = BTreeSet::new();
        let mut work = vec![from];
        while let Some(p) = work.pop() {
            if self.removed[p] || !seen.insert(p) {
                continue;
            }
            if self.a.states[p].ty == BASIC && self.a.states[p].tr.len() == 1 {
                let q = succ(&self.a.states[p].tr[0]);
                if self.a.states[q].ty == BASIC && self.a.states[q].tr.len() == 1 {
                    if let Tr::Eps(r) = self.a.states[q].tr[0] {
                        if matches!(self.a.states[r].ty, BLOCK_END | PLUS_LOOP_BACK | STAR_LOOP_BACK) {
                            set_succ(&mut self.a.states[p].tr[0], r);
                            self.removed[q] = true;
                        }
                    }
                }
            }
            for t in &self.a.states[p].tr {
                work.push(succ(t));
            }
        }
    }
}

pub fn succ(t: &Tr) -> usize {
    match t {
        Tr::Eps(x) | Tr::Range(x, _, _) | Tr::Atom(x, _) | Tr::Set(x, _) | Tr::NotSet(x, _) | Tr::Wild(x) | Tr::Prec(x, _) => *x,
        Tr::Rule { follow, .. } => *follow,
        Tr::Pred { to, .. } | Tr::Action { to, .. } => *to,
    }
}
fn set_succ(t: &mut Tr, v: usize) {
    match t {
        Tr::Eps(x) | Tr::Range(x, _, _) | Tr::Atom(x, _) | Tr::Set(x, _) | Tr::NotSet(x, _) | Tr::Wild(x) | Tr::Prec(x, _) => *x = v,
        Tr::Rule { follow, .. } => *follow = v,
        Tr::Pred { to, .. } | Tr::Action { to, .. } => *to = v,
    }
}

fn remap_n(n: &mut N, m: &[usize]) {
    let ra = |alts: &mut Vec<Vec<N>>| {
        for a in alts {
            for n in a {
                remap_n(n, m)
            }
        }
    };
    match n {
        N::Tok { st, .. } | N::Set { st, .. } | N::Wild { st } | N::Rule { st, .. } | N::Pred { st, .. } => *st = m[*st],
        N::Act => {}
        N::Blk { st, alts, .. } | N::Opt { st, alts, .. } => {
            *st = m[*st];
            ra(alts)
        }
        N::Star { entry, blk, alts, back, .. } => {
            *entry = m[*entry];
            *back = m[*back];
            if let Some(b) = blk {
                b.0 = m[b.0]
            }
            ra(alts)
        }
        N::Plus { blkst, alts, back, .. } => {
            *blkst = m[*blkst];
            *back = m[*back];
            ra(alts)
        }
    }
}

pub fn compile(g: &Gram) -> Compiled {
    let nr = g.rules.len();
    let mut b = B {
        a: Atn { lexer: false, max_tok: g.ntok as u32, ..Default::default() },
        removed: vec![],
        stops: vec![],
        pred_seen: HashMap::new(),
        pred_cnt: vec![0; nr],
    };
    for r in 0..nr {
        let s = b.st(RULE_START, r);
        let e = b.st(RULE_STOP, r);
        b.a.rule_start.push(s);
        b.stops.push(e);
        if let R::Lr { .. } = g.rules[r] {
            b.a.states[s].prec_rule = true;
        }
    }
    let mut rules = vec![];
    for r in 0..nr {
        let start = b.a.rule_start[r];
        let stop = b.stops[r];
        match &g.rules[r] {
            R::Plain { alts } => {
                let (hs, ns) = b.alts(alts, r);
                let (l, e, blk) = if hs.len() == 1 {
                    (hs[0].0, hs[0].1, None)
                } else {
                    let s = b.st(BLOCK_START, r);
                    let dec = b.a.decision(s);
                    let e = b.mk_block(s, &hs, r);
                    (s, e, Some((s, dec)))
                };
                b.a.eps(start, l);
                b.a.eps(e, stop);
                rules.push(CR::Plain { start, blk, alts: ns });
            }
            R::Lr { prims, ops } => {
                let mut ps: Vec<Vec<P>> = prims.iter().map(|x| x.1.clone()).collect();
                ps[0].insert(0, P::Act);
                let (hs, mut ns) = b.alts(&ps, r);
                ns[0].remove(0);
                let (l, e, prim_blk) = if hs.len() == 1 {
                    (hs[0].0, hs[0].1, None)
                } else {
                    let s = b.st(BLOCK_START, r);
                    let dec = b.a.decision(s);
                    let e = b.mk_block(s, &hs, r);
                    (s, e, Some((s, dec)))
                };
                let mut ohs = vec![];
                let mut cops = vec![];
                for op in ops {
                    let (pl, pr) = b.basic1(r, |x| Tr::Prec(x, op.prec));
                    let els: Vec<(usize, usize, N)> = op.body.iter().map(|p| b.elem(p, r)).collect();
                    let mut hs = vec![(pl, pr)];
                    hs.extend(els.iter().map(|x| (x.0, x.1)));
                    ohs.push(b.join(&hs));
                    cops.push((pl, op.prec, els.into_iter().map(|x| x.2).collect::<Vec<_>>()));
                }
                let (entry, end, dec, blk, back) = b.star(&ohs, true, r);
                let (l, e) = b.join(&[(l, e), (entry, end)]);
                b.a.eps(start, l);
                b.a.eps(e, stop);
                rules.push(CR::Lr {
                    start,
                    lr: CLr {
                        prim_blk,
                        prims: ns,
                        prim_alt: prims.iter().map(|x| x.0).collect(),
                        entry,
                        dec,
                        blk,
                        ops: cops,
                        op_alt: ops.iter().map(|o| o.alt).collect(),
                        back,
                    },
                });
            }
        }
    }
    // compact
    let mut m = vec![usize::MAX; b.a.states.len()];
    let mut k = 0;
    for i in 0..b.a.states.len() {
        if !b.removed[i] {
            m[i] = k;
            k += 1;
        }
    }
    let old = std::mem::take(&mut b.a.states);
    for (i, mut s) in old.into_iter().enumerate() {
        if b.removed[i] {
            continue;
        }
        if matches!(s.ty, BLOCK_START | PLUS_BLOCK_START | STAR_BLOCK_START | LOOP_END) {
            s.extra = m[s.extra];
        }
        for t in &mut s.tr {
            let x = m[succ(t)];
            assert!(x != usize::MAX);
            set_succ(t, x);
            if let Tr::Rule { start, .. } = t {
                *start = m[*start];
            }
        }
        b.a.states.push(s);
    }
    for x in b.a.rule_start.iter_mut().chain(b.stops.iter_mut()).chain(b.a.decisions.iter_mut()) {
        *x = m[*x];
    }
    for r in &mut rules {
        match r {
            CR::Plain { start, blk, alts } => {
                *start = m[*start];
                if let Some(b) = blk {
                    b.0 = m[b.0];
                }
                for a in alts {
                    for n in a {
                        remap_n(n, &m);
                    }
                }
            }
            CR::Lr { start, lr } => {
                *start = m[*start];
                if let Some(b) = &mut lr.prim_blk {
                    b.0 = m[b.0];
                }
                if let Some(b) = &mut lr.blk {
                    b.0 = m[b.0];
                }
                lr.entry = m[lr.entry];
                lr.back = m[lr.back];
                for a in &mut lr.prims {
                    for n in a {
                        remap_n(n, &m);
                    }
                }
                for o in &mut lr.ops {
                    o.0 = m[o.0];
                    for n in &mut o.2 {
                        remap_n(n, &m);
                    }
                }
            }
        }
    }
    let mut c = Compiled { g: g.clone(), atn: b.a, rules, ll1: vec![], stops: b.stops };
    c.ll1 = (0..c.atn.decisions.len()).map(|d| c.ll1_sets(d)).collect();
    c
}

/// predicate number -> (rule, index within rule) as `sempred` sees it; the inverse of the compiler's numbering
pub fn pred_numbers(g: &Gram) -> HashMap<(usize, usize), usize> {
    let mut m = HashMap::new();
    let mut cnt = vec![0usize; g.rules.len()];
    fn walk(s: &[P], r: usize, cnt: &mut Vec<usize>, m: &mut HashMap<(usize, usize), usize>) {
        for p in s {
            match p {
                P::Pred(i) => {
                    m.insert((r, cnt[r]), *i);
                    cnt[r] += 1;
                }
                P::Blk(a) | P::Opt(a, _) | P::Star(a, _) | P::Plus(a, _) => {
                    for x in a {
                        walk(x, r, cnt, m)
                    }
                }
                _ => {}
            }
        }
    }
    for (r, d) in g.rules.iter().enumerate() {
        match d {
            R::Plain { alts } => alts.iter().for_each(|a| walk(a, r, &mut cnt, &mut m)),
            R::Lr { prims, ops } => {
                prims.iter().for_each(|a| walk(&a.1, r, &mut cnt, &mut m));
                ops.iter().for_each(|a| walk(&a.body, r, &mut cnt, &mut m));
            }
        }
    }
    m
}

const PATHS: usize = 20;

/// states and their callers (innermost last)
type Situations = BTreeSet<(usize, Vec<usize>)>;

impl Compiled {
    pub fn tok_set(&self, t: &Tr) -> Option<Vec<i32>> {
        let all = 1..=self.g.ntok;
        Some(match t {
            Tr::Atom(_, a) => vec![*a],
            Tr::Set(_, r) => all.filter(|x| in_ranges(r, *x)).chain(if in_ranges(r, EOF) { Some(EOF) } else { None }).collect(),
            Tr::NotSet(_, r) => all.filter(|x| !in_ranges(r, *x)).collect(),
            Tr::Wild(_) => all.collect(),
            Tr::Range(_, a, b) => (*a..=*b).collect(),
            _ => return None,
        })
    }
    /// tokens reachable from `s`; None when a predicate is in the way. Rule stops follow every caller.
    fn look_global(&self, s: usize, out: &mut BTreeSet<i32>, seen: &mut BTreeSet<usize>) -> bool {
        // context-insensitive on the way out of the decision's own rule, exact for rules entered on the way
        self.look_ctx(s, &mut vec![], out, &mut BTreeSet::new(), seen, 0)
    }
    fn look_ctx(
        &self,
        s: usize,
        stack: &mut Vec<usize>,
        out: &mut BTreeSet<i32>,
        busy: &mut BTreeSet<(usize, Vec<usize>)>,
        seen_global: &mut BTreeSet<usize>,
        depth: usize,
    ) -> bool {
        if depth > 200 {
            return false;
        }
        if !busy.insert((s, stack.clone())) {
            return true;
        }
        let st = &self.atn.states[s];
        if st.ty == RULE_STOP {
            if let Some(f) = stack.pop() {
                let ok = self.look_ctx(f, stack, out, busy, seen_global, depth + 1);
                stack.push(f);
                return ok;
            }
            if !seen_global.insert(s) {
                return true;
            }
            let mut ok = true;
            for st2 in &self.atn.states {
                for t in &st2.tr {
                    if let Tr::Rule { rule, follow, .. } = t {
                        if self.stops[*rule] == s {
                            ok &= self.look_ctx(*follow, stack, out, busy, seen_global, depth + 1);
                        }
                    }
                }
            }
            return ok;
        }
        for t in &st.tr {
            match t {
                Tr::Eps(x) => {
                    if !self.look_ctx(*x, stack, out, busy, seen_global, depth + 1) {
                        return false;
                    }
                }
                Tr::Action { to, .. } => {
                    if !self.look_ctx(*to, stack, out, busy, seen_global, depth + 1) {
                        return false;
                    }
                }
                Tr::Pred { .. } | Tr::Prec(..) => return false,
                Tr::Rule { start, follow, .. } => {
                    if stack.len() > 12 {
                        return false;
                    }
                    stack.push(*follow);
                    let ok = self.look_ctx(*start, stack, out, busy, seen_global, depth + 1);
                    stack.pop();
                    if !ok {
                        return false;
                    }
                }
                t => out.extend(self.tok_set(t).unwrap()),
            }
        }
        true
    }
    fn ll1_sets(&self, d: usize) -> Option<Vec<Vec<i32>>> {
        let s = self.atn.decisions[d];
        let mut sets: Vec<Vec<i32>> = vec![];
        let mut union = BTreeSet::new();
        for t in &self.atn.states[s].tr {
            let mut out = BTreeSet::new();
            if !self.look_global(succ(t), &mut out, &mut BTreeSet::new()) || out.is_empty() {
                return None;
            }
            for x in &out {
                if !union.insert(*x) {
                    return None;
                }
            }
            sets.push(out.into_iter().collect());
        }
        Some(sets)
    }

    /// Would full-context prediction have to follow more than `cap` stacks at some position? ALL(*) is
    /// exponential on such grammar/input pairs, so they are left out.
    pub fn heavy(&self, w: &[i32], cap: usize) -> bool {
        self.heavy_from(w, cap, false) || self.heavy_from(w, cap * 3, true)
    }
    /// `anywhere`: start a prediction of every decision at every position with unknown callers
    fn heavy_from(&self, w: &[i32], cap: usize, anywhere: bool) -> bool {
        let mut callers: HashMap<usize, Vec<usize>> = HashMap::new();
        if anywhere {
            for st in &self.atn.states {
                for t in &st.tr {
                    if let Tr::Rule { rule, follow, .. } = t {
                        callers.entry(self.stops[*rule]).or_default().push(*follow);
                    }
                }
            }
        }
        let mut stacks: Vec<(usize, usize)> = vec![(usize::MAX, usize::MAX)];
        let mut ids: HashMap<(usize, usize), usize> = HashMap::new();
        let start = self.atn.rule_start[self.g.start];
        let mut cur: Vec<(usize, usize)> = vec![(start, 0)];
        for i in 0..=w.len() {
            let t = w.get(i).copied().unwrap_or(EOF);
            if anywhere {
                cur.extend(self.atn.decisions.iter().map(|d| (*d, 0)));
            }
            let mut seen: HashMap<(usize, usize), ()> = HashMap::new();
            let mut next: Vec<(usize, usize)> = vec![];
            cur.sort_unstable();
            cur.dedup();
            // closure walks every path between two tokens, so paths count as well as configurations
            let mut paths = 0;
            while let Some((s, k)) = cur.pop() {
                paths += 1;
                if paths > cap * PATHS {
                    return true;
                }
                if seen.insert((s, k), ()).is_some() && k == 0 {
                    continue; // below the decision's own rule, closure visits each configuration once
                }
                if seen.len() > cap {
                    return true;
                }
                let st = &self.atn.states[s];
                if st.ty == RULE_STOP {
                    if k != 0 {
                        cur.push((stacks[k].0, stacks[k].1));
                    } else if let Some(c) = callers.get(&s) {
                        cur.extend(c.iter().map(|f| (*f, 0)));
                    }
                    continue;
                }
                for tr in &st.tr {
                    match tr {
                        Tr::Eps(x) | Tr::Prec(x, _) => cur.push((*x, k)),
                        Tr::Action { to, .. } | Tr::Pred { to, .. } => cur.push((*to, k)),
                        Tr::Rule { start, follow, .. } => {
                            let id = *ids.entry((*follow, k)).or_insert_with(|| {
                                stacks.push((*follow, k));
                                stacks.len() - 1
                            });
                            cur.push((*start, id));
                        }
                        tr => {
                            if self.tok_set(tr).unwrap().contains(&t) {
                                // the end of input can be matched again and again
                                let v = if t == EOF { &mut cur } else { &mut next };
                                v.push((succ(tr), k));
                            }
                        }
                    }
                }
            }
            cur = next;
        }
        false
    }

    /// Every way into alternative `alt` of decision `dec` leads through a predicate that is false at position `at`
    /// (predicates behind actions, precedences and ways out of the rule count as open).
    pub fn shut(&self, dec: usize, alt: usize, truth: &[bool], nums: &HashMap<(usize, usize), usize>, at: usize) -> bool {
        let d = self.atn.decisions[dec];
        let mut seen = BTreeSet::new();
        let mut work = vec![(succ(&self.atn.states[d].tr[alt - 1]), vec![])];
        while let Some((s, k)) = work.pop() {
            if !seen.insert((s, k.clone())) {
                continue;
            }
            if seen.len() > 2000 {
                return false;
            }
            let st = &self.atn.states[s];
            if st.ty == RULE_STOP {
                let mut k: Vec<usize> = k;
                match k.pop() {
                    Some(f) => work.push((f, k)),
                    None => return false,
                }
                continue;
            }
            for t in &st.tr {
                match t {
                    Tr::Eps(x) => work.push((*x, k.clone())),
                    Tr::Pred { to, rule, idx, .. } => match nums.get(&(*rule, *idx as usize)) {
                        Some(i) if !holds(truth, self.g.npred, *i, at) => {}
                        _ => work.push((*to, k.clone())),
                    },
                    Tr::Rule { start, follow, .. } => {
                        let mut k = k.clone();
                        k.push(*follow);
                        work.push((*start, k));
                    }
                    _ => return false,
                }
            }
        }
        true
    }
    /// The rest of `w` from `p` on has a prefix (perhaps empty) that takes alternative `alt` of `dec` to the end of its
    /// rule, predicates and precedences aside.
    pub fn may_end(&self, dec: usize, alt: usize, w: &[i32], p: usize) -> bool {
        let d = self.atn.decisions[dec];
        let mut seen = BTreeSet::new();
        let mut work = vec![(succ(&self.atn.states[d].tr[alt - 1]), vec![], p)];
        while let Some((s, k, p)) = work.pop() {
            if !seen.insert((s, k.clone(), p)) {
                continue;
            }
            if seen.len() > 4000 || k.len() > 40 {
                return true;
            }
            let st = &self.atn.states[s];
            if st.ty == RULE_STOP {
                let mut k: Vec<usize> = k;
                match k.pop() {
                    Some(f) => work.push((f, k, p)),
                    None => return true,
                }
                continue;
            }
            for t in &st.tr {
                if let Tr::Rule { start, follow, .. } = t {
                    let mut k = k.clone();
                    k.push(*follow);
                    work.push((*start, k, p));
                } else if let Some(set) = self.tok_set(t) {
                    match w.get(p) {
                        Some(x) if set.contains(x) => work.push((succ(t), k.clone(), p + 1)),
                        None if set.contains(&-1) => work.push((succ(t), k.clone(), p)),
                        _ => {}
                    }
                } else {
                    work.push((succ(t), k.clone(), p));
                }
            }
        }
        false
    }
    /// length of the longest beginning of `w` that begins some sentence; w.len()+1 if `w` itself is one
    pub fn viable_len(&self, w: &[i32]) -> usize {
        // configurations: state + stack of (follow, precedence of the caller), precedence of the current rule
        let mut stacks: Vec<(usize, usize, u32)> = vec![(usize::MAX, usize::MAX, 0)];
        let mut ids: HashMap<(usize, usize, u32), usize> = HashMap::new();
        // last: the end of input was matched, which can be done again and again
        let mut cur: Vec<(usize, usize, u32, bool)> = vec![(self.atn.rule_start[self.g.start], 0, 0, false)];
        for i in 0..=w.len() {
            let t = w.get(i).copied().unwrap_or(EOF);
            let mut seen: HashMap<(usize, usize, u32, bool), ()> = HashMap::new();
            let mut next = vec![];
            let mut ended = false;
            while let Some((s, k, p, e)) = cur.pop() {
                if seen.insert((s, k, p, e), ()).is_some() {
                    continue;
                }
                let st = &self.atn.states[s];
                if st.ty == RULE_STOP {
                    if k != 0 {
                        cur.push((stacks[k].0, stacks[k].1, stacks[k].2, e));
                    } else {
                        ended |= e || self.g.start != 0;
                    }
                    continue;
                }
                for tr in &st.tr {
                    match tr {
                        Tr::Eps(x) => cur.push((*x, k, p, e)),
                        Tr::Prec(x, q) => {
                            if *q >= p {
                                cur.push((*x, k, p, e))
                            }
                        }
                        Tr::Action { to, .. } | Tr::Pred { to, .. } => cur.push((*to, k, p, e)),
                        Tr::Rule { start, follow, prec, .. } => {
                            let id = *ids.entry((*follow, k, p)).or_insert_with(|| {
                                stacks.push((*follow, k, p));
                                stacks.len() - 1
                            });
                            cur.push((*start, id, *prec, e));
                        }
                        tr => {
                            if self.tok_set(tr).unwrap().contains(&t) {
                                if t == EOF {
                                    cur.push((succ(tr), k, p, true));
                                } else {
                                    next.push((succ(tr), k, p, false));
                                }
                            }
                        }
                    }
                }
            }
            if i == w.len() {
                return i + ended as usize;
            }
            if next.is_empty() {
                return i;
            }
            cur = next;
        }
        unreachable!()
    }
    fn callers(&self) -> HashMap<usize, Vec<usize>> {
        let mut callers: HashMap<usize, Vec<usize>> = HashMap::new();
        for st in &self.atn.states {
            for t in &st.tr {
                if let Tr::Rule { rule, follow, .. } = t {
                    callers.entry(self.stops[*rule]).or_default().push(*follow);
                }
            }
        }
        callers
    }
    /// What prediction can be in after `seeds` without consuming anything: states with a token to match next (or the end
    /// of the outermost rule) and their callers. None = too big, or behind a predicate.
    fn closed(&self, callers: &HashMap<usize, Vec<usize>>, seeds: Vec<(usize, Vec<usize>)>) -> Option<Situations> {
        let mut seen: Situations = BTreeSet::new();
        let mut out: Situations = BTreeSet::new();
        let mut work = seeds;
        while let Some((s, k)) = work.pop() {
            if !seen.insert((s, k.clone())) {
                continue;
            }
            if seen.len() > 3000 || k.len() > 60 {
                return None;
            }
            let st = &self.atn.states[s];
            if st.ty == RULE_STOP {
                let mut k = k;
                match k.pop() {
                    Some(f) => work.push((f, k)),
                    None => match callers.get(&s) {
                        Some(v) => work.extend(v.iter().map(|f| (*f, vec![]))),
                        None => {
                            out.insert((s, vec![]));
                        }
                    },
                }
                continue;
            }
            for t in &st.tr {
                match t {
                    Tr::Eps(x) => work.push((*x, k.clone())),
                    Tr::Action { to, .. } => work.push((*to, k.clone())),
                    Tr::Prec(..) | Tr::Pred { .. } => return None,
                    Tr::Rule { start, follow, .. } => {
                        let mut k2 = k.clone();
                        k2.push(*follow);
                        work.push((*start, k2));
                    }
                    _ => {
                        out.insert((s, k.clone()));
                    }
                }
            }
        }
        Some(out)
    }
    /// Position of the token at which no alternative of decision `dec`, looked at from position `p` on, is left (w.len() =
    /// end of input). `stack` as in `lookahead_need`. None = never, too big, or predicates are involved.
    pub fn dead_at(&self, dec: usize, stack: Option<&[usize]>, w: &[i32], p: usize) -> Option<usize> {
        let callers = if stack.is_none() { self.callers() } else { HashMap::new() };
        let base: Vec<usize> = stack.map(|s| s.to_vec()).unwrap_or_default();
        let d = self.atn.decisions[dec];
        let mut cur = self.closed(&callers, self.atn.states[d].tr.iter().map(|t| (succ(t), base.clone())).collect())?;
        for k in p..w.len() {
            // known callers: what has reached the end of everything stays there
            if stack.is_some() && cur.iter().any(|(s, _)| self.atn.states[*s].ty == RULE_STOP) {
                return None;
            }
            let mut seeds = vec![];
            for (s, st) in &cur {
                for tr in &self.atn.states[*s].tr {
                    if self.tok_set(tr).map_or(false, |set| set.contains(&w[k])) {
                        seeds.push((succ(tr), st.clone()));
                    }
                }
            }
            if seeds.is_empty() {
                return Some(k);
            }
            cur = self.closed(&callers, seeds)?;
        }
        Some(w.len())
    }
    /// Number of tokens from position `p` on after which decision `dec` needs no more lookahead: at most one
    /// alternative is still viable, or all viable ones are in exactly the same situations. `stack`: follow states of the
    /// callers (innermost last), None = callers unknown. None = not before the end of the input, or too big.
    /// `cover`: it is enough that the first viable alternative is in every situation the others are in (wherever
    /// another one is, the first one is with the same callers).
    /// For grammars without predicates and left recursion.
    pub fn lookahead_need(&self, dec: usize, stack: Option<&[usize]>, cover: bool, w: &[i32], p: usize) -> Option<usize> {
        type Set = Situations;
        let callers = if stack.is_none() { self.callers() } else { HashMap::new() };
        let close = |seeds: Vec<(usize, Vec<usize>)>| self.closed(&callers, seeds);
        let d = self.atn.decisions[dec];
        let base: Vec<usize> = stack.map(|s| s.to_vec()).unwrap_or_default();
        let mut cur: Vec<Set> = vec![];
        for t in &self.atn.states[d].tr {
            cur.push(close(vec![(succ(t), base.clone())])?);
        }
        for k in 1.. {
            if p + k > w.len() {
                return None;
            }
            let t = w[p + k - 1];
            let mut next = vec![];
            for c in &cur {
                let mut seeds = vec![];
                for (s, st) in c {
                    for tr in &self.atn.states[*s].tr {
                        if let Some(set) = self.tok_set(tr) {
                            if set.contains(&t) {
                                seeds.push((succ(tr), st.clone()));
                            }
                        }
                    }
                }
                next.push(close(seeds)?);
            }
            next.retain(|c| !c.is_empty());
            if next.len() <= 1 {
                return Some(k);
            }
            // callers unknown: a situation with unknown callers covers those that only know more of them
            let norm = |c: &Set| -> Set {
                if stack.is_some() {
                    return c.clone();
                }
                c.iter().filter(|(s, k)| !(1..=k.len()).any(|i| c.contains(&(*s, k[i..].to_vec())))).cloned().collect()
            };
            let first = norm(&next[0]);
            if next.iter().all(|c| norm(c) == first) {
                return Some(k);
            }
            if cover {
                let by_state = |c: &Set| {
                    let mut m: BTreeMap<usize, BTreeSet<Vec<usize>>> = BTreeMap::new();
                    for (s, k) in c {
                        m.entry(*s).or_default().insert(k.clone());
                    }
                    m
                };
                let first = by_state(&next[0]);
                if next[1..].iter().all(|c| by_state(c).iter().all(|(s, k)| first.get(s) == Some(k))) {
                    return Some(k);
                }
            }
            cur = next;
        }
        None
    }
    pub fn derives(&self, w: &[i32]) -> bool {
        self.viable_len(w) > w.len()
    }
    /// tokens that can come next in state `s` inside its own rule; `None` = the rule can end here
    pub fn look_state(&self, s: usize) -> BTreeSet<Option<i32>> {
        self.look_exact(s, &[])
    }
    /// invoking states (outermost first) -> follow states
    pub fn follows(&self, stack: &[isize]) -> Vec<usize> {
        stack
            .iter()
            .map(|i| match self.atn.states[*i as usize].tr[0] {
                Tr::Rule { follow, .. } => follow,
                _ => panic!("state {} does not invoke a rule", i),
            })
            .collect()
    }
    /// exact set of tokens that can come next in state `s` with the given stack of follow states
    /// (innermost last); `None` in the result = the bottom rule can end here
    pub fn look_exact(&self, s: usize, stack: &[usize]) -> BTreeSet<Option<i32>> {
        let mut out = BTreeSet::new();
        let mut seen: BTreeSet<(usize, Vec<usize>)> = BTreeSet::new();
        let mut work = vec![(s, stack.to_vec())];
        while let Some((s, k)) = work.pop() {
            if !seen.insert((s, k.clone())) {
                continue;
            }
            let st = &self.atn.states[s];
            if st.ty == RULE_STOP {
                let mut k = k;
                match k.pop() {
                    Some(f) => work.push((f, k)),
                    None => {
                        out.insert(None);
                    }
                }
                continue;
            }
            for t in &st.tr {
                match t {
                    Tr::Eps(x) | Tr::Prec(x, _) => work.push((*x, k.clone())),
                    Tr::Action { to, .. } | Tr::Pred { to, .. } => work.push((*to, k.clone())),
                    Tr::Rule { start, follow, .. } => {
                        let mut k2 = k.clone();
                        // a rule re-entered without consuming anything would be left recursion; grammars exclude it
                        k2.push(*follow);
                        if k2.len() < 40 {
                            work.push((*start, k2));
                        }
                    }
                    t => out.extend(self.tok_set(t).unwrap().into_iter().map(Some)),
                }
            }
        }
        out
    }
}

// ---------------------------------------------------------------- printing

pub fn show(g: &Gram) -> String {
    let mut o = String::new();
    for (i, r) in g.rules.iter().enumerate() {
        let _ = write!(o, "r{}{}: ", i, if g.labelled[i] { "#" } else { "" });
        match r {
            R::Plain { alts } => {
                let _ = write!(o, "{}", show_alts(alts));
            }
            R::Lr { prims, ops } => {
                let mut v: Vec<(usize, String)> = prims.iter().map(|(a, p)| (*a, format!("[prim] {}", show_seq(p)))).collect();
                v.extend(ops.iter().map(|o| (o.alt, format!("[op prec {}] r{} {}", o.prec, i, show_seq(&o.body)))));
                v.sort();
                let _ = write!(o, "{}", v.into_iter().map(|x| x.1).collect::<Vec<_>>().join(" | "));
            }
        }
        o.push_str("; ");
    }
    o
}
fn show_alts(a: &[Vec<P>]) -> String {
    a.iter().map(|s| show_seq(s)).collect::<Vec<_>>().join(" | ")
}
fn show_seq(s: &[P]) -> String {
    s.iter()
        .map(|p| match p {
            P::Tok(EOF) => "EOF".into(),
            P::Tok(t) => tname(*t),
            P::Set(v) => format!("[{}]", v.iter().map(|t| tname(*t)).collect::<Vec<_>>().join("")),
            P::NotSet(v) => format!("~[{}]", v.iter().map(|t| tname(*t)).collect::<Vec<_>>().join("")),
            P::Wild => ".".into(),
            P::Rule(r, 0) => format!("r{}", r),
            P::Rule(r, p) => format!("r{}<{}>", r, p),
            P::Pred(i) => format!("{{p{}}}?", i),
            P::Act => "{}".into(),
            P::Blk(a) => format!("({})", show_alts(a)),
            P::Opt(a, g) => format!("({})?{}", show_alts(a), if *g { "" } else { "?" }),
            P::Star(a, g) => format!("({})*{}", show_alts(a), if *g { "" } else { "?" }),
            P::Plus(a, g) => format!("({})+{}", show_alts(a), if *g { "" } else { "?" }),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn tname(t: i32) -> String {
    if t == EOF {
        "EOF".into()
    } else {
        ((b'A' + (t - 1) as u8) as char).to_string()
    }
}
pub fn show_toks(w: &[i32]) -> String {
    w.iter().map(|t| tname(*t)).collect::<Vec<_>>().join(" ")
}

// ---------------------------------------------------------------- generator

#[derive(Clone)]
pub struct GOpt {
    pub max_rules: usize,
    pub ntok: (usize, usize),
    pub lr: bool,
    pub preds: bool,
    pub nongreedy: bool,
    pub wild: bool,
    pub size: usize,
    /// use few tokens so that alternatives share prefixes and ambiguity is common
    pub dense: bool,
    /// parses may start at a rule that other rules call and that no EOF token ends
    pub entry: bool,
    /// EOF in other places than the end of the start rule (`';' | EOF` and the like)
    pub eof: bool,
}
impl Default for GOpt {
    fn default() -> Self {
        GOpt { max_rules: 4, ntok: (2, 6), lr: true, preds: false, nongreedy: true, wild: true, size: 14, dense: false, entry: false, eof: false }
    }
}

struct Gen<'a> {
    s: &'a mut Src,
    o: GOpt,
    ntok: i32,
    nr: usize,
    lr: Vec<bool>,
    null: Vec<bool>,
    done: Vec<bool>,
    npred: usize,
    pred_rule: Vec<usize>,
    budget: isize,
    /// EOF may occur anywhere
    eofs: bool,
    /// actions between the elements
    acts: bool,
    /// rules that can match EOF
    eof_rule: Vec<bool>,
    /// an element of the current rule can match EOF: no recursion behind it, which recovery would follow forever
    /// at the end of input (it makes up what is missing in between)
    taint: bool,
}

impl<'a> Gen<'a> {
    fn tok(&mut self) -> i32 {
        1 + self.s.draw(self.ntok as usize) as i32
    }
    fn toks(&mut self) -> Vec<i32> {
        let n = self.s.range(1, 3.min(self.ntok as usize));
        let mut v: Vec<i32> = (0..n).map(|_| self.tok()).collect();
        v.sort();
        v.dedup();
        v
    }
    fn nullable(&self, p: &P) -> bool {
        match p {
            // matching the end of input consumes nothing
            P::Tok(t) => *t == EOF,
            P::Set(v) => v.contains(&EOF),
            P::NotSet(_) | P::Wild => false,
            P::Rule(r, _) => !self.done[*r] || self.null[*r],
            P::Pred(_) | P::Act => true,
            P::Blk(a) | P::Plus(a, _) => a.iter().any(|s| self.nullable_seq(s)),
            P::Opt(..) | P::Star(..) => true,
        }
    }
    fn nullable_seq(&self, s: &[P]) -> bool {
        s.iter().all(|p| self.nullable(p))
    }
    fn elem(&mut self, rule: usize, safe: bool, depth: usize) -> P {
        self.budget -= 1;
        let safe = safe && !self.taint;
        // `safe`: something non-nullable precedes, so any rule may be referenced
        let w_rule = if safe || rule + 1 < self.nr { 5 } else { 0 };
        let w_sub = if depth >= 3 || self.budget <= 0 { 0 } else { 1 };
        let w_misc = if self.o.wild { 1 } else { 0 };
        if self.eofs && self.s.chance(1, 6) {
            return match self.s.draw(4) {
                0 => P::Tok(EOF),
                1 => {
                    let mut v = self.toks();
                    v.insert(0, EOF);
                    P::Set(v)
                }
                2 => P::Blk(vec![vec![P::Tok(self.tok())], vec![P::Tok(EOF)]]),
                _ => P::Opt(vec![vec![P::Tok(EOF)]], true),
            };
        }
        match self.s.weighted(&[8, w_rule, w_misc, w_misc, 3 * w_sub, 2 * w_sub, 3 * w_sub, 2 * w_sub]) {
            0 => P::Tok(self.tok()),
            1 => {
                let r = if safe { self.s.draw(self.nr.max(2) - 1) + 1 } else { rule + 1 + self.s.draw(self.nr - rule - 1) };
                if r >= self.nr {
                    return P::Tok(self.tok());
                }
                P::Rule(r, 0)
            }
            2 => {
                let v = self.toks();
                if self.s.chance(1, 3) && (v.len() as i32) < self.ntok {
                    P::NotSet(v)
                } else {
                    P::Set(v)
                }
            }
            3 => {
                if self.s.chance(1, 3) {
                    P::Wild
                } else {
                    P::Tok(self.tok())
                }
            }
            4 => {
                let n = self.s.range(2, 3);
                P::Blk((0..n).map(|_| self.seq(rule, safe, depth + 1, 0)).collect())
            }
            k => {
                let n = self.s.weighted(&[0, 5, 3]);
                let mut alts: Vec<Vec<P>> = (0..n).map(|_| self.seq(rule, safe, depth + 1, 1)).collect();
                for a in &mut alts {
                    if self.nullable_seq(a) || k != 5 && self.eofs && a.iter().any(|p| self.has_eof(p)) {
                        let t = self.tok();
                        // a predicate stays on the left edge
                        let at = if matches!(a.first(), Some(P::Pred(_))) { 1 } else { 0 };
                        a.insert(at, P::Tok(t));
                    }
                }
                let greedy = !(self.o.nongreedy && self.s.chance(1, 6));
                match k {
                    5 => P::Opt(alts, greedy),
                    6 => P::Star(alts, greedy),
                    _ => P::Plus(alts, greedy),
                }
            }
        }
    }
    fn seq(&mut self, rule: usize, safe: bool, depth: usize, min: usize) -> Vec<P> {
        let n = if self.budget <= 0 { 1 } else { self.s.weighted(&[1, 6, 5, 3]) };
        let n = n.max(min);
        let mut v = vec![];
        let mut safe = safe;
        if n > 0 && self.o.preds && self.s.chance(1, 3) {
            let p = self.pred(rule);
            v.push(p);
        }
        for _ in 0..n {
            let e = self.elem(rule, safe, depth);
            if !self.nullable(&e) {
                safe = true;
            }
            self.taint |= self.eofs && self.has_eof(&e);
            // where there are predicates, right behind a token: no prediction looks for predicates past it
            let full = if self.o.preds { matches!(e, P::Tok(_) | P::Set(_) | P::NotSet(_) | P::Wild) } else { !self.nullable(&e) };
            v.push(e);
            if self.acts && full && self.s.chance(1, 5) {
                v.push(P::Act);
            }
        }
        v
    }
    fn has_eof(&self, p: &P) -> bool {
        match p {
            P::Tok(t) => *t == EOF,
            P::Set(v) => v.contains(&EOF),
            P::Rule(r, _) => !self.done[*r] || self.eof_rule[*r],
            P::Blk(a) | P::Plus(a, _) | P::Opt(a, _) | P::Star(a, _) => a.iter().flatten().any(|p| self.has_eof(p)),
            _ => false,
        }
    }
    fn pred(&mut self, rule: usize) -> P {
        self.npred += 1;
        self.pred_rule.push(rule);
        P::Pred(self.npred - 1)
    }
    fn plain(&mut self, r: usize) -> R {
        let n = if r == 0 { self.s.weighted(&[0, 4, 2, 1]) } else { self.s.weighted(&[0, 3, 4, 2]) };
        R::Plain { alts: (0..n).map(|_| self.seq(r, false, 0, 0)).collect() }
    }
    fn lr_rule(&mut self, r: usize) -> R {
        let nops = self.s.range(1, 4);
        let nprim = self.s.range(1, 3);
        let total = nops + nprim;
        // which of the alternatives are operators, in source order
        let mut kinds: Vec<bool> = vec![];
        let mut o = nops;
        let mut p = nprim;
        while o + p > 0 {
            let is_op = if p == 0 { true } else if o == 0 { false } else { self.s.draw(o + p) < o };
            kinds.push(is_op);
            if is_op {
                o -= 1
            } else {
                p -= 1
            }
        }
        let mut prims: Vec<(usize, Vec<P>)> = vec![];
        let mut ops = vec![];
        for (i, is_op) in kinds.iter().enumerate() {
            let alt = i + 1;
            let prec = (total - alt + 1) as u32;
            if *is_op {
                let kind = self.s.weighted(&[6, 3, 2, 1, 1]);
                let t = self.tok();
                let mut body = match kind {
                    0 => {
                        let right = self.s.chance(1, 3);
                        vec![P::Tok(t), P::Rule(r, if right { prec } else { prec + 1 })]
                    }
                    1 => vec![P::Tok(t)],
                    2 => {
                        let t2 = self.tok();
                        let right = self.s.chance(1, 2);
                        vec![P::Tok(t), P::Rule(r, 0), P::Tok(t2), P::Rule(r, if right { prec } else { prec + 1 })]
                    }
                    3 => {
                        let t2 = self.tok();
                        vec![P::Tok(t), P::Rule(r, 0), P::Tok(t2)]
                    }
                    _ => {
                        let t2 = self.tok();
                        vec![P::Tok(t), P::Opt(vec![vec![P::Tok(t2)]], true), P::Rule(r, prec + 1)]
                    }
                };
                if self.o.wild && self.s.chance(1, 4) {
                    body[0] = P::Set(self.toks());
                }
                ops.push(Op { prec, body, alt });
            } else {
                let k = self.s.weighted(&[5, 3, 2, 2]);
                let t = self.tok();
                let b = match k {
                    0 => vec![P::Tok(t)],
                    1 => vec![P::Tok(t), P::Rule(r, prec)], // prefix operator
                    2 => {
                        let t2 = self.tok();
                        vec![P::Tok(t), P::Rule(r, 0), P::Tok(t2)]
                    }
                    _ => {
                        if r + 1 < self.nr {
                            let x = r + 1 + self.s.draw(self.nr - r - 1);
                            if self.done[x] && !self.null[x] {
                                vec![P::Rule(x, 0)]
                            } else {
                                vec![P::Tok(t), P::Rule(x, 0)]
                            }
                        } else {
                            vec![P::Tok(t)]
                        }
                    }
                };
                prims.push((alt, b));
            }
        }
        // at least one primary must be non-recursive
        if prims.iter().all(|(_, b)| b.iter().any(|p| matches!(p, P::Rule(..)))) {
            let t = self.tok();
            prims[0].1 = vec![P::Tok(t)];
        }
        if self.o.preds {
            for (_, b) in &mut prims {
                if self.s.chance(1, 4) {
                    let p = self.pred(r);
                    b.insert(0, p);
                }
            }
            for o in &mut ops {
                if self.s.chance(1, 4) {
                    let p = self.pred(r);
                    o.body.insert(0, p);
                }
            }
        }
        if self.acts {
            for b in prims.iter_mut().map(|p| &mut p.1).chain(ops.iter_mut().map(|o| &mut o.body)) {
                let n = b.len();
                if self.s.chance(1, 3) && !matches!(b[n - 1], P::Pred(_)) {
                    let at = if self.s.chance(1, 4) { self.s.range(1 + matches!(b[0], P::Pred(_)) as usize, n) } else { n };
                    if !self.o.preds || matches!(b[at - 1], P::Tok(_) | P::Set(_) | P::NotSet(_) | P::Wild) {
                        b.insert(at, P::Act);
                    }
                }
            }
        }
        R::Lr { prims, ops }
    }
}

pub fn gen_gram(s: &mut Src, o: &GOpt) -> Gram {
    let ntok = s.range(o.ntok.0, o.ntok.1) as i32;
    let nr = s.range(1, o.max_rules);
    let mut lr = vec![false; nr];
    for r in 1..nr {
        lr[r] = o.lr && s.chance(1, 4);
    }
    let mut g = Gen {
        s,
        o: o.clone(),
        ntok,
        nr,
        lr,
        null: vec![false; nr],
        done: vec![false; nr],
        npred: 0,
        pred_rule: vec![],
        budget: 0,
        eofs: false,
        acts: false,
        eof_rule: vec![false; nr],
        taint: false,
    };
    g.eofs = o.eof && g.s.chance(1, 6);
    g.acts = g.s.chance(1, 3);
    let mut rules: Vec<Option<R>> = vec![None; nr];
    for r in (0..nr).rev() {
        g.budget = o.size as isize;
        g.taint = false;
        let d = if g.lr[r] { g.lr_rule(r) } else { g.plain(r) };
        g.null[r] = match &d {
            R::Plain { alts } => alts.iter().any(|a| g.nullable_seq(a)),
            R::Lr { .. } => false,
        };
        g.eof_rule[r] = match &d {
            R::Plain { alts } => alts.iter().flatten().any(|p| g.has_eof(p)),
            R::Lr { prims, ops } => prims.iter().map(|p| &p.1).chain(ops.iter().map(|o| &o.body)).flatten().any(|p| g.has_eof(p)),
        };
        g.done[r] = true;
        rules[r] = Some(d);
    }
    let eofs = g.eofs;
    let (npred, pred_rule) = (g.npred, g.pred_rule.clone());
    let mut rules: Vec<R> = rules.into_iter().map(|x| x.unwrap()).collect();
    // start rule: every alternative ends in EOF
    if let R::Plain { alts } = &mut rules[0] {
        for a in alts.iter_mut() {
            a.push(P::Tok(EOF));
        }
    }
    let mut labelled = vec![];
    for _ in 0..nr {
        labelled.push(s.chance(1, 3));
    }
    let mut g = Gram { ntok, rules, labelled, npred, pred_rule, start: 0 };
    make_productive(&mut g);
    // where a parse without EOF at its end stops is open, so no EOF inside either
    if o.entry && !eofs && nr > 1 && s.chance(1, 4) {
        g.start = s.range(1, nr - 1);
        // the entry rule has to be one that EOF can follow
        let r = g.start;
        if let R::Plain { alts } = &mut g.rules[0] {
            alts.push(vec![P::Rule(r, 0), P::Tok(EOF)]);
        }
    }
    g
}

/// depth needed to derive a finite sentence from each rule; unproductive rules get an extra alternative
fn make_productive(g: &mut Gram) {
    loop {
        let d = min_depth(g);
        match (0..g.rules.len()).find(|r| d[*r].is_none()) {
            None => return,
            Some(r) => {
                // prefer the deepest unproductive rule: any is fine
                match &mut g.rules[r] {
                    R::Plain { alts } => {
                        let t = P::Tok(1 + (r as i32 % g.ntok));
                        if r == 0 {
                            alts.push(vec![t, P::Tok(EOF)])
                        } else {
                            alts.push(vec![t])
                        }
                    }
                    R::Lr { prims, .. } => prims[0].1 = vec![P::Tok(1)],
                }
            }
        }
    }
}

pub fn min_depth(g: &Gram) -> Vec<Option<usize>> {
    let mut d: Vec<Option<usize>> = vec![None; g.rules.len()];
    loop {
        let mut ch = false;
        for r in 0..g.rules.len() {
            let v = match &g.rules[r] {
                R::Plain { alts } => alts.iter().filter_map(|a| depth_seq(a, &d)).min(),
                R::Lr { prims, .. } => prims.iter().filter_map(|a| depth_seq(&a.1, &d)).min(),
            };
            if let Some(v) = v {
                if d[r].map_or(true, |x| v + 1 < x) {
                    d[r] = Some(v + 1);
                    ch = true;
                }
            }
        }
        if !ch {
            return d;
        }
    }
}
fn depth_seq(s: &[P], d: &[Option<usize>]) -> Option<usize> {
    let mut m = 0;
    for p in s {
        m = m.max(depth_p(p, d)?);
    }
    Some(m)
}
fn depth_p(p: &P, d: &[Option<usize>]) -> Option<usize> {
    match p {
        P::Rule(r, _) => d[*r],
        P::Blk(a) | P::Plus(a, _) => a.iter().filter_map(|s| depth_seq(s, d)).min(),
        _ => Some(0),
    }
}

/// random sentence of the grammar (without EOF); predicates are ignored
pub fn gen_sentence(s: &mut Src, g: &Gram, max: usize) -> Vec<i32> {
    let d = min_depth(g);
    let mut out = vec![];
    let mut fuel = 200;
    der_rule(s, g, &d, g.start, max, &mut out, 0, &mut fuel);
    if let Some(i) = out.iter().position(|t| *t == EOF) {
        if s.chance(2, 3) {
            out.truncate(i);
        }
    }
    out.retain(|t| *t != EOF);
    out
}
fn der_rule(s: &mut Src, g: &Gram, d: &[Option<usize>], r: usize, max: usize, out: &mut Vec<i32>, depth: usize, fuel: &mut i32) {
    *fuel -= 1;
    let tight = out.len() >= max || depth > 12 || *fuel <= 0;
    match &g.rules[r] {
        R::Plain { alts } => {
            let i = pick_alt(s, &alts.iter().map(|a| depth_seq(a, d)).collect::<Vec<_>>(), tight);
            der_seq(s, g, d, &alts[i], max, out, depth, fuel);
        }
        R::Lr { prims, ops } => {
            let i = pick_alt(s, &prims.iter().map(|a| depth_seq(&a.1, d)).collect::<Vec<_>>(), tight);
            der_seq(s, g, d, &prims[i].1, max, out, depth, fuel);
            let n = if tight { 0 } else { s.weighted(&[3, 4, 2, 1]) };
            for _ in 0..n {
                if out.len() >= max || *fuel <= 0 {
                    break;
                }
                let o = s.draw(ops.len());
                der_seq(s, g, d, &ops[o].body, max, out, depth, fuel);
            }
        }
    }
}
fn pick_alt(s: &mut Src, ds: &[Option<usize>], tight: bool) -> usize {
    if tight {
        let m = ds.iter().filter_map(|x| *x).min().unwrap();
        return ds.iter().position(|x| *x == Some(m)).unwrap();
    }
    let ok: Vec<usize> = (0..ds.len()).filter(|i| ds[*i].is_some()).collect();
    ok[s.draw(ok.len())]
}
fn der_seq(s: &mut Src, g: &Gram, d: &[Option<usize>], seq: &[P], max: usize, out: &mut Vec<i32>, depth: usize, fuel: &mut i32) {
    for p in seq {
        *fuel -= 1;
        let tight = out.len() >= max || depth > 12 || *fuel <= 0;
        match p {
            P::Tok(t) => out.push(*t),
            P::Set(v) => out.push(v[s.draw(v.len())]),
            P::NotSet(v) => {
                let c: Vec<i32> = (1..=g.ntok).filter(|t| !v.contains(t)).collect();
                out.push(c[s.draw(c.len())])
            }
            P::Wild => out.push(1 + s.draw(g.ntok as usize) as i32),
            P::Rule(r, _) => der_rule(s, g, d, *r, max, out, depth + 1, fuel),
            P::Pred(_) | P::Act => {}
            P::Blk(a) => {
                let i = pick_alt(s, &a.iter().map(|x| depth_seq(x, d)).collect::<Vec<_>>(), tight);
                der_seq(s, g, d, &a[i], max, out, depth + 1, fuel)
            }
            P::Opt(a, _) | P::Star(a, _) | P::Plus(a, _) => {
                let lo = if let P::Plus(..) = p { 1 } else { 0 };
                let n = match p {
                    P::Opt(..) => s.draw(2),
                    _ => lo + s.weighted(&[3, 3, 2, 1]),
                };
                let n = if tight { lo } else { n };
                for _ in 0..n {
                    let tight = out.len() >= max || *fuel <= 0;
                    let ds: Vec<_> = a.iter().map(|x| depth_seq(x, d)).collect();
                    if ds.iter().all(|x| x.is_none()) {
                        break;
                    }
                    let i = pick_alt(s, &ds, tight);
                    der_seq(s, g, d, &a[i], max, out, depth + 1, fuel)
                }
            }
        }
    }
}

/// sentence, mutated sentence or noise
pub fn gen_input(s: &mut Src, g: &Gram, max: usize) -> Vec<i32> {
    let k = s.weighted(&[6, 4, 1]);
    if k == 2 {
        let n = s.len(0, max.min(10));
        return (0..n).map(|_| 1 + s.draw(g.ntok as usize) as i32).collect();
    }
    let mut w = gen_sentence(s, g, max);
    w.truncate(60);
    if k == 1 {
        let n = s.range(1, 3);
        for _ in 0..n {
            let t = 1 + s.draw(g.ntok as usize) as i32;
            match s.draw(4) {
                0 => {
                    if !w.is_empty() {
                        let i = s.draw(w.len());
                        w.remove(i);
                    }
                }
                1 => {
                    let i = s.draw(w.len() + 1);
                    w.insert(i, t)
                }
                2 => {
                    if !w.is_empty() {
                        let i = s.draw(w.len());
                        w[i] = t
                    }
                }
                _ => {
                    if w.len() > 1 {
                        let i = s.draw(w.len() - 1);
                        w.swap(i, i + 1)
                    }
                }
            }
        }
    }
    w
}

// ---------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Rule { rule: usize, alt: usize, kids: Vec<T> },
    Tok(usize),
}
pub fn sig(t: &T, with_alt: &[bool]) -> String {
    match t {
        T::Tok(i) => i.to_string(),
        T::Rule { rule, alt, kids } => {
            let mut o = format!("(r{}", rule);
            if with_alt[*rule] {
                let _ = write!(o, "#{}", alt);
            }
            for k in kids {
                o.push(' ');
                o.push_str(&sig(k, with_alt));
            }
            o.push(')');
            o
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Key {
    Seq(usize, usize),
    Loop(usize),
    Rule(usize, u32),
    Ops(usize, u32),
}

/// pending work of the reference parser
#[derive(Clone, Copy)]
enum It<'a> {
    Seq(&'a [P]),
    /// iterate again or leave
    Loop(&'a P),
    Ops(usize, u32),
    /// a sequence behind an action: predicates in it do not take part in prediction
    Hid(&'a [P]),
}

pub const NODEC: usize = usize::MAX;

pub struct Ref<'a> {
    pub g: &'a Gram,
    pub w: &'a [i32],
    pub preds: &'a [bool],
    memo: HashMap<(Key, usize, usize), Vec<usize>>,
    pub steps: u64,
    pub limit: u64,
    /// decisions where more than one alternative led to a complete parse
    pub ambiguous: usize,
    pub decisions: usize,
    /// positions (decision start) where a false predicate removed an alternative that would otherwise be viable
    pub pred_decided: usize,
    pub iters: usize,
    /// every decision taken, in parse order: (position, alternatives that lead to a complete parse)
    pub dlog: Vec<(usize, Vec<usize>)>,
}
/// Truth of predicate `i` when the input stands at token `pos`. `truth` holds one value per predicate, or
/// k times as many for predicates that look at the position modulo k.
pub fn holds(truth: &[bool], npred: usize, i: usize, pos: usize) -> bool {
    let k = (truth.len() / npred.max(1)).max(1);
    truth.get((pos % k) * npred + i).copied().unwrap_or(true)
}
pub struct TooBig;
type RR<X> = Result<X, TooBig>;

impl<'a> Ref<'a> {
    pub fn new(g: &'a Gram, w: &'a [i32], preds: &'a [bool]) -> Ref<'a> {
        Ref { g, w, preds, memo: HashMap::new(), steps: 0, limit: 400_000, ambiguous: 0, decisions: 0, pred_decided: 0, iters: 0, dlog: vec![] }
    }
    fn holds(&self, i: usize, pos: usize) -> bool {
        holds(self.preds, self.g.npred, i, pos.min(self.w.len()))
    }
    fn tok(&self, i: usize) -> Option<i32> {
        // the end of input can be matched any number of times
        self.w.get(i).copied().or(Some(EOF))
    }
    pub fn tmatch(g: &Gram, p: &P, t: i32) -> bool {
        match p {
            P::Tok(x) => *x == t,
            P::Set(v) => v.contains(&t),
            P::NotSet(v) => t >= 1 && t <= g.ntok && !v.contains(&t),
            P::Wild => t >= 1 && t <= g.ntok,
            _ => false,
        }
    }
    fn tick(&mut self) -> RR<()> {
        self.steps += 1;
        if self.steps > self.limit {
            Err(TooBig)
        } else {
            Ok(())
        }
    }
    fn ends_seq(&mut self, s: &'a [P], pos: usize, dec: usize) -> RR<Vec<usize>> {
        if s.is_empty() {
            return Ok(vec![pos]);
        }
        let key = (Key::Seq(s.as_ptr() as usize, s.len()), pos, dec);
        if let Some(v) = self.memo.get(&key) {
            return Ok(v.clone());
        }
        self.tick()?;
        let mut out = BTreeSet::new();
        for e in self.ends_p(&s[0], pos, dec)? {
            out.extend(self.ends_seq(&s[1..], e, dec)?);
        }
        let v: Vec<usize> = out.into_iter().collect();
        self.memo.insert(key, v.clone());
        Ok(v)
    }
    fn ends_alts(&mut self, a: &'a [Vec<P>], pos: usize, dec: usize) -> RR<BTreeSet<usize>> {
        let mut o = BTreeSet::new();
        for s in a {
            o.extend(self.ends_seq(s, pos, dec)?);
        }
        Ok(o)
    }
    fn ends_loop(&mut self, p: &'a P, pos: usize, dec: usize) -> RR<Vec<usize>> {
        let key = (Key::Loop(p as *const P as usize), pos, dec);
        if let Some(v) = self.memo.get(&key) {
            return Ok(v.clone());
        }
        self.tick()?;
        let a = match p {
            P::Star(a, _) | P::Plus(a, _) => a,
            _ => unreachable!(),
        };
        let mut out: BTreeSet<usize> = BTreeSet::new();
        out.insert(pos);
        for e in self.ends_alts(a, pos, dec)? {
            if e > pos {
                out.extend(self.ends_loop(p, e, dec)?);
            }
        }
        let v: Vec<usize> = out.into_iter().collect();
        self.memo.insert(key, v.clone());
        Ok(v)
    }
    fn ends_p(&mut self, p: &'a P, pos: usize, dec: usize) -> RR<Vec<usize>> {
        Ok(match p {
            P::Tok(_) | P::Set(_) | P::NotSet(_) | P::Wild => match self.tok(pos) {
                Some(t) if Self::tmatch(self.g, p, t) => vec![pos + 1],
                _ => vec![],
            },
            P::Pred(i) => {
                if pos == dec && !self.holds(*i, pos) {
                    vec![]
                } else {
                    vec![pos]
                }
            }
            P::Act => vec![pos],
            P::Rule(r, prec) => self.ends_rule(*r, *prec, pos, dec)?,
            P::Blk(a) => self.ends_alts(a, pos, dec)?.into_iter().collect(),
            P::Opt(a, _) => {
                let mut o = self.ends_alts(a, pos, dec)?;
                o.insert(pos);
                o.into_iter().collect()
            }
            P::Star(..) => self.ends_loop(p, pos, dec)?,
            P::Plus(a, _) => {
                let mut o = BTreeSet::new();
                for e in self.ends_alts(a, pos, dec)? {
                    if e > pos {
                        o.extend(self.ends_loop(p, e, dec)?);
                    }
                }
                o.into_iter().collect()
            }
        })
    }
    fn ends_rule(&mut self, r: usize, prec: u32, pos: usize, dec: usize) -> RR<Vec<usize>> {
        let key = (Key::Rule(r, prec), pos, dec);
        if let Some(v) = self.memo.get(&key) {
            return Ok(v.clone());
        }
        self.tick()?;
        let g = self.g;
        let out = match &g.rules[r] {
            R::Plain { alts } => self.ends_alts(alts, pos, dec)?,
            R::Lr { prims, .. } => {
                let mut o = BTreeSet::new();
                for (i, (_, b)) in prims.iter().enumerate() {
                    // the first primary alternative starts with an (empty) action, behind which
                    // prediction does not evaluate predicates
                    for e in self.ends_seq(b, pos, if i == 0 { NODEC } else { dec })? {
                        o.extend(self.ends_ops(r, prec, e, dec)?);
                    }
                }
                o
            }
        };
        let v: Vec<usize> = out.into_iter().collect();
        self.memo.insert(key, v.clone());
        Ok(v)
    }
    fn ends_ops(&mut self, r: usize, prec: u32, pos: usize, dec: usize) -> RR<Vec<usize>> {
        let key = (Key::Ops(r, prec), pos, dec);
        if let Some(v) = self.memo.get(&key) {
            return Ok(v.clone());
        }
        self.tick()?;
        let g = self.g;
        let mut out = BTreeSet::new();
        out.insert(pos);
        if let R::Lr { ops, .. } = &g.rules[r] {
            for o in ops {
                if o.prec >= prec {
                    for e in self.ends_seq(&o.body, pos, dec)? {
                        out.extend(self.ends_ops(r, prec, e, dec)?);
                    }
                }
            }
        }
        let v: Vec<usize> = out.into_iter().collect();
        self.memo.insert(key, v.clone());
        Ok(v)
    }
    fn ends_it(&mut self, i: It<'a>, pos: usize, dec: usize) -> RR<Vec<usize>> {
        match i {
            It::Seq(s) => self.ends_seq(s, pos, dec),
            It::Hid(s) => self.ends_seq(s, pos, NODEC),
            It::Loop(p) => self.ends_loop(p, pos, dec),
            It::Ops(r, p) => self.ends_ops(r, p, pos, dec),
        }
    }
    /// can `items` (in order) followed by the stack reach the end of input?
    fn viable(&mut self, items: &[It<'a>], pos: usize, k: &[It<'a>], dec: usize) -> RR<bool> {
        let mut cur: BTreeSet<usize> = BTreeSet::new();
        cur.insert(pos);
        for it in items.iter().chain(k.iter().rev()) {
            let mut nx = BTreeSet::new();
            for p in cur {
                nx.extend(self.ends_it(*it, p, dec)?);
            }
            cur = nx;
            if cur.is_empty() {
                return Ok(false);
            }
        }
        Ok(cur.iter().any(|p| self.ended(*p)))
    }
    /// where a complete parse ends
    fn ended(&self, p: usize) -> bool {
        p >= self.w.len() + if self.g.start == 0 { 1 } else { 0 }
    }
    /// index of the first viable choice
    fn choose(&mut self, choices: &[Vec<It<'a>>], pos: usize, k: &[It<'a>]) -> RR<Option<usize>> {
        self.decisions += 1;
        let mut first = None;
        let mut n = 0;
        let mut all = vec![];
        for (i, c) in choices.iter().enumerate() {
            if self.viable(c, pos, k, pos)? {
                n += 1;
                all.push(i + 1);
                if first.is_none() {
                    first = Some(i);
                }
            } else if self.viable(c, pos, k, NODEC)? {
                self.pred_decided += 1;
            }
        }
        if n > 1 {
            self.ambiguous += 1;
        }
        self.dlog.push((pos.min(self.w.len()), all));
        Ok(first)
    }

    /// Ok(Some(tree)) if the input is a sentence
    pub fn parse(&mut self) -> RR<Option<T>> {
        let mut k = vec![];
        let r = self.rule(self.g.start, 0, 0, &mut k)?;
        Ok(r.and_then(|(t, p)| if self.ended(p) { Some(t) } else { None }))
    }
    fn rule(&mut self, r: usize, prec: u32, pos: usize, k: &mut Vec<It<'a>>) -> RR<Option<(T, usize)>> {
        self.tick()?;
        let g = self.g;
        match &g.rules[r] {
            R::Plain { alts } => {
                let i = if alts.len() == 1 {
                    0
                } else {
                    match self.choose(&alts.iter().map(|a| vec![It::Seq(a)]).collect::<Vec<_>>(), pos, k)? {
                        Some(i) => i,
                        None => return Ok(None),
                    }
                };
                let mut kids = vec![];
                Ok(self.seq(&alts[i], pos, k, &mut kids)?.map(|p| (T::Rule { rule: r, alt: i + 1, kids }, p)))
            }
            R::Lr { prims, ops } => {
                let i = if prims.len() == 1 {
                    0
                } else {
                    match self.choose(&prims.iter().enumerate().map(|(i, a)| vec![if i == 0 { It::Hid(&a.1) } else { It::Seq(&a.1) }, It::Ops(r, prec)]).collect::<Vec<_>>(), pos, k)? {
                        Some(i) => i,
                        None => return Ok(None),
                    }
                };
                let mut kids = vec![];
                k.push(It::Ops(r, prec));
                let p = self.seq(&prims[i].1, pos, k, &mut kids)?;
                k.pop();
                let mut p = match p {
                    Some(p) => p,
                    None => return Ok(None),
                };
                let mut t = T::Rule { rule: r, alt: prims[i].0, kids };
                loop {
                    let act: Vec<usize> = (0..ops.len()).filter(|o| ops[*o].prec >= prec).collect();
                    let mut ch: Vec<Vec<It<'a>>> = act.iter().map(|o| vec![It::Seq(&ops[*o].body), It::Ops(r, prec)]).collect();
                    ch.push(vec![]);
                    let c = match self.choose(&ch, p, k)? {
                        Some(i) => i,
                        None => return Ok(None),
                    };
                    // generated code: loop decision (1 = another operator, 2 = leave), then which operator
                    let (_, all) = self.dlog.pop().unwrap();
                    let mut l = vec![];
                    let opsv: Vec<usize> = all.iter().filter(|x| **x <= act.len()).map(|x| act[*x - 1] + 1).collect();
                    if !opsv.is_empty() {
                        l.push(1);
                    }
                    if all.contains(&(act.len() + 1)) {
                        l.push(2);
                    }
                    self.dlog.push((p.min(self.w.len()), l));
                    if c < act.len() && ops.len() > 1 {
                        self.dlog.push((p.min(self.w.len()), opsv));
                    }
                    if c == act.len() {
                        return Ok(Some((t, p)));
                    }
                    self.iters += 1;
                    let op = &ops[act[c]];
                    let mut kids = vec![t];
                    k.push(It::Ops(r, prec));
                    let e = self.seq(&op.body, p, k, &mut kids)?;
                    k.pop();
                    p = match e {
                        Some(e) => e,
                        None => return Ok(None),
                    };
                    t = T::Rule { rule: r, alt: op.alt, kids };
                }
            }
        }
    }
    fn seq(&mut self, s: &'a [P], pos: usize, k: &mut Vec<It<'a>>, kids: &mut Vec<T>) -> RR<Option<usize>> {
        let mut pos = pos;
        for (i, p) in s.iter().enumerate() {
            self.tick()?;
            let rest = &s[i + 1..];
            k.push(It::Seq(rest));
            let r = self.elem(p, pos, k, kids);
            k.pop();
            pos = match r? {
                Some(p) => p,
                None => return Ok(None),
            };
        }
        Ok(Some(pos))
    }
    fn elem(&mut self, p: &'a P, pos: usize, k: &mut Vec<It<'a>>, kids: &mut Vec<T>) -> RR<Option<usize>> {
        match p {
            P::Tok(_) | P::Set(_) | P::NotSet(_) | P::Wild => match self.tok(pos) {
                Some(t) if Self::tmatch(self.g, p, t) => {
                    kids.push(T::Tok(pos.min(self.w.len())));
                    Ok(Some(pos + 1))
                }
                _ => Ok(None),
            },
            P::Pred(i) => Ok(if self.holds(*i, pos) { Some(pos) } else { None }),
            P::Act => Ok(Some(pos)),
            P::Rule(r, prec) => match self.rule(*r, *prec, pos, k)? {
                Some((t, e)) => {
                    kids.push(t);
                    Ok(Some(e))
                }
                None => Ok(None),
            },
            P::Blk(a) => {
                let c = match self.choose(&a.iter().map(|a| vec![It::Seq(a)]).collect::<Vec<_>>(), pos, k)? {
                    Some(c) => c,
                    None => return Ok(None),
                };
                self.seq(&a[c], pos, k, kids)
            }
            P::Opt(a, greedy) => {
                let mut ch: Vec<Vec<It<'a>>> = a.iter().map(|a| vec![It::Seq(a)]).collect();
                if *greedy {
                    ch.push(vec![]);
                } else {
                    ch.insert(0, vec![]);
                }
                match self.choose(&ch, pos, k)? {
                    None => Ok(None),
                    Some(c) => {
                        let c = if *greedy { c } else { c.wrapping_sub(1) };
                        if c < a.len() {
                            self.seq(&a[c], pos, k, kids)
                        } else {
                            Ok(Some(pos))
                        }
                    }
                }
            }
            P::Star(a, greedy) => self.loops(p, a, *greedy, pos, k, kids),
            P::Plus(a, greedy) => {
                k.push(It::Loop(p));
                let e = self.body(a, pos, k, kids);
                k.pop();
                match e? {
                    Some(e) => self.loops(p, a, *greedy, e, k, kids),
                    None => Ok(None),
                }
            }
        }
    }
    fn body(&mut self, a: &'a [Vec<P>], pos: usize, k: &mut Vec<It<'a>>, kids: &mut Vec<T>) -> RR<Option<usize>> {
        let c = if a.len() == 1 {
            0
        } else {
            match self.choose(&a.iter().map(|a| vec![It::Seq(a)]).collect::<Vec<_>>(), pos, k)? {
                Some(c) => c,
                None => return Ok(None),
            }
        };
        self.seq(&a[c], pos, k, kids)
    }
    fn loops(&mut self, p: &'a P, a: &'a [Vec<P>], greedy: bool, pos: usize, k: &mut Vec<It<'a>>, kids: &mut Vec<T>) -> RR<Option<usize>> {
        let mut pos = pos;
        loop {
            self.tick()?;
            // "enter" is viable if some alternative followed by the loop is
            let mut enter = false;
            let mut enter_nopred = false;
            for x in a {
                if self.viable(&[It::Seq(x), It::Loop(p)], pos, k, pos)? {
                    enter = true;
                } else if self.viable(&[It::Seq(x), It::Loop(p)], pos, k, NODEC)? {
                    enter_nopred = true;
                }
            }
            if enter_nopred && !enter {
                self.pred_decided += 1;
            }
            let exit = self.viable(&[], pos, k, pos)?;
            self.decisions += 1;
            if enter && exit {
                self.ambiguous += 1;
            }
            let (ne, nx) = if greedy { (1, 2) } else { (2, 1) };
            let mut l = vec![];
            if enter {
                l.push(ne);
            }
            if exit {
                l.push(nx);
            }
            l.sort();
            self.dlog.push((pos.min(self.w.len()), l));
            let go = match (enter, exit) {
                (false, false) => return Ok(None),
                (true, false) => true,
                (false, true) => false,
                (true, true) => greedy,
            };
            if !go {
                return Ok(Some(pos));
            }
            self.iters += 1;
            k.push(It::Loop(p));
            let e = self.body(a, pos, k, kids);
            k.pop();
            match e? {
                Some(e) => pos = e,
                None => return Ok(None),
            }
        }
    }
}
