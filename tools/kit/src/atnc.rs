//! Independent grammar -> ATN compiler and serializer (format version 3, as emitted by the ANTLR 4.8 tool).
use std::collections::BTreeMap;

pub const BASIC: u32 = 1;
pub const RULE_START: u32 = 2;
pub const BLOCK_START: u32 = 3;
pub const PLUS_BLOCK_START: u32 = 4;
pub const STAR_BLOCK_START: u32 = 5;
pub const TOKEN_START: u32 = 6;
pub const RULE_STOP: u32 = 7;
pub const BLOCK_END: u32 = 8;
pub const STAR_LOOP_BACK: u32 = 9;
pub const STAR_LOOP_ENTRY: u32 = 10;
pub const PLUS_LOOP_BACK: u32 = 11;
pub const LOOP_END: u32 = 12;

pub const EOF: i32 = -1;

/// list of inclusive ranges (may contain -1 = EOF)
pub type Ranges = Vec<(i32, i32)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Tr {
    Eps(usize),
    Range(usize, i32, i32),
    Rule { start: usize, rule: usize, prec: u32, follow: usize },
    Pred { to: usize, rule: usize, idx: u32, ctx: bool },
    Atom(usize, i32),
    Action { to: usize, rule: usize, idx: u32, ctx: bool },
    Set(usize, Ranges),
    NotSet(usize, Ranges),
    Wild(usize),
    Prec(usize, u32),
}

#[derive(Clone, Debug)]
pub struct St {
    pub ty: u32,
    pub rule: usize, // usize::MAX = none
    pub extra: usize,
    pub nongreedy: bool,
    pub prec_rule: bool,
    pub tr: Vec<Tr>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum LAct {
    Channel(i32),
    Custom(usize, u32),
    Mode(u32),
    More,
    PopMode,
    PushMode(u32),
    Skip,
    Type(i32),
}

#[derive(Clone, Debug, Default)]
pub struct Atn {
    pub lexer: bool,
    pub max_tok: u32,
    pub states: Vec<St>,
    pub rule_start: Vec<usize>,
    pub rule_tok: Vec<i32>,
    pub modes: Vec<usize>,
    pub decisions: Vec<usize>,
    pub lex_actions: Vec<LAct>,
}

impl Atn {
    pub fn state(&mut self, ty: u32, rule: usize) -> usize {
        self.states.push(St { ty, rule, extra: 0, nongreedy: false, prec_rule: false, tr: vec![] });
        self.states.len() - 1
    }
    pub fn eps(&mut self, a: usize, b: usize) {
        self.states[a].tr.push(Tr::Eps(b));
    }
    pub fn decision(&mut self, s: usize) -> usize {
        self.decisions.push(s);
        self.decisions.len() - 1
    }
    pub fn act(&mut self, a: LAct) -> u32 {
        if let Some(i) = self.lex_actions.iter().position(|x| *x == a) {
            return i as u32;
        }
        self.lex_actions.push(a);
        self.lex_actions.len() as u32 - 1
    }

    /// 16-bit words before the +2 shift
    pub fn words(&self) -> Vec<u32> {
        let mut w: Vec<u32> = vec![];
        // UUID 59627784-3BE5-417A-B9EB-8131A7286089, least significant word first
        for x in [0x6089u32, 0xA728, 0x8131, 0xB9EB, 0x417A, 0x3BE5, 0x7784, 0x5962] {
            w.push(x);
        }
        w.push(if self.lexer { 0 } else { 1 });
        w.push(self.max_tok);
        w.push(self.states.len() as u32);
        for s in &self.states {
            w.push(s.ty);
            w.push(if s.rule == usize::MAX { 0xFFFF } else { s.rule as u32 });
            match s.ty {
                BLOCK_START | PLUS_BLOCK_START | STAR_BLOCK_START | LOOP_END => w.push(s.extra as u32),
                _ => {}
            }
        }
        let ng: Vec<usize> = (0..self.states.len()).filter(|i| self.states[*i].nongreedy).collect();
        w.push(ng.len() as u32);
        w.extend(ng.iter().map(|x| *x as u32));
        let pr: Vec<usize> = (0..self.states.len()).filter(|i| self.states[*i].prec_rule).collect();
        w.push(pr.len() as u32);
        w.extend(pr.iter().map(|x| *x as u32));
        w.push(self.rule_start.len() as u32);
        for (i, r) in self.rule_start.iter().enumerate() {
            w.push(*r as u32);
            if self.lexer {
                let t = self.rule_tok[i];
                w.push(if t == EOF { 0xFFFF } else { t as u32 });
            }
        }
        w.push(self.modes.len() as u32);
        w.extend(self.modes.iter().map(|x| *x as u32));
        // sets
        let mut small: Vec<Ranges> = vec![];
        let mut big: Vec<Ranges> = vec![];
        for s in &self.states {
            if s.ty == RULE_STOP {
                continue;
            }
            for t in &s.tr {
                if let Tr::Set(_, r) | Tr::NotSet(_, r) = t {
                    let v = if r.iter().any(|x| x.1 > 0xFFFF) { &mut big } else { &mut small };
                    if !v.contains(r) {
                        v.push(r.clone());
                    }
                }
            }
        }
        let mut idx: BTreeMap<Ranges, u32> = BTreeMap::new();
        for (i, r) in small.iter().chain(big.iter()).enumerate() {
            idx.insert(r.clone(), i as u32);
        }
        for (k, sets) in [&small, &big].iter().enumerate() {
            w.push(sets.len() as u32);
            for r in sets.iter() {
                let has_eof = r.iter().any(|x| x.0 == EOF);
                let rs: Ranges = r
                    .iter()
                    .filter(|x| x.1 >= 0)
                    .map(|x| (x.0.max(0), x.1))
                    .collect();
                w.push(rs.len() as u32);
                w.push(has_eof as u32);
                for (a, b) in rs {
                    for v in [a, b] {
                        if k == 0 {
                            w.push(v as u32);
                        } else {
                            w.push(v as u32 & 0xFFFF);
                            w.push(v as u32 >> 16);
                        }
                    }
                }
            }
        }
        // edges
        let mut edges = vec![];
        for (i, s) in self.states.iter().enumerate() {
            if s.ty == RULE_STOP {
                continue;
            }
            for t in &s.tr {
                let e = match t {
                    Tr::Eps(to) => [*to as u32, 1, 0, 0, 0],
                    Tr::Range(to, a, b) => {
                        if *a == EOF {
                            [*to as u32, 2, 0, *b as u32, 1]
                        } else {
                            [*to as u32, 2, *a as u32, *b as u32, 0]
                        }
                    }
                    Tr::Rule { start, rule, prec, follow } => {
                        [*follow as u32, 3, *start as u32, *rule as u32, *prec]
                    }
                    Tr::Pred { to, rule, idx, ctx } => [*to as u32, 4, *rule as u32, *idx, *ctx as u32],
                    Tr::Atom(to, a) => {
                        if *a == EOF {
                            [*to as u32, 5, 0, 0, 1]
                        } else {
                            [*to as u32, 5, *a as u32, 0, 0]
                        }
                    }
                    Tr::Action { to, rule, idx, ctx } => [*to as u32, 6, *rule as u32, *idx, *ctx as u32],
                    Tr::Set(to, r) => [*to as u32, 7, idx[r], 0, 0],
                    Tr::NotSet(to, r) => [*to as u32, 8, idx[r], 0, 0],
                    Tr::Wild(to) => [*to as u32, 9, 0, 0, 0],
                    Tr::Prec(to, p) => [*to as u32, 10, *p, 0, 0],
                };
                edges.push((i as u32, e));
            }
        }
        w.push(edges.len() as u32);
        for (s, e) in edges {
            w.push(s);
            w.extend(e);
        }
        w.push(self.decisions.len() as u32);
        w.extend(self.decisions.iter().map(|x| *x as u32));
        if self.lexer {
            w.push(self.lex_actions.len() as u32);
            for a in &self.lex_actions {
                let (t, x, y) = match a {
                    LAct::Channel(c) => (0, *c as u32, 0),
                    LAct::Custom(r, i) => (1, *r as u32, *i),
                    LAct::Mode(m) => (2, *m, 0),
                    LAct::More => (3, 0, 0),
                    LAct::PopMode => (4, 0, 0),
                    LAct::PushMode(m) => (5, *m, 0),
                    LAct::Skip => (6, 0, 0),
                    LAct::Type(t) => (7, *t as u32 & 0xFFFF, 0),
                };
                w.push(t);
                w.push(x);
                w.push(y);
            }
        }
        w
    }

    pub fn serialize(&self) -> String {
        let mut s = String::new();
        s.push('\x03');
        for v in self.words() {
            assert!(v <= 0xFFFF, "value does not fit the serialized format");
            s.push(enc(v));
        }
        s
    }
}

pub fn enc(v: u32) -> char {
    let e = (v + 2) & 0xFFFF;
    let e = if (0xD800..=0xDFFF).contains(&e) { e + 0x3000 } else { e };
    char::from_u32(e).unwrap()
}

/// normalise a char/token set to sorted disjoint ranges
pub fn norm(mut r: Ranges) -> Ranges {
    r.sort();
    let mut o: Ranges = vec![];
    for (a, b) in r {
        if b < a {
            continue;
        }
        if let Some(l) = o.last_mut() {
            if a <= l.1 + 1 {
                l.1 = l.1.max(b);
                continue;
            }
        }
        o.push((a, b));
    }
    o
}
pub fn in_ranges(r: &Ranges, c: i32) -> bool {
    r.iter().any(|x| x.0 <= c && c <= x.1)
}
