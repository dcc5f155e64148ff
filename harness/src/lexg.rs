//! Lexer grammars: AST, generator, ATN compilation, reference tokenizer.
use crate::atnc::*;
use crate::engine::Src;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum L {
    Set(Ranges),
    Not(Ranges),
    Dot,
    Eof,
    Seq(Vec<L>),
    Alt(Vec<L>),
    Opt(Box<L>, bool),
    Star(Box<L>, bool),
    Plus(Box<L>, bool),
    Ref(usize),
    Pred(u32),
    Act(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Skip,
    More,
    Type(i32),
    Channel(i32),
    Mode(u32),
    Push(u32),
    Pop,
}

/// what an embedded (custom) action does besides recording itself
#[derive(Clone, Debug, PartialEq)]
pub enum AOp {
    Nop,
    SetText(&'static str),
    SetType(i32),
    SetChannel(i32),
    Skip,
    More,
    Push(u32),
    Pop,
    Mode(u32),
    /// hand over a token of this type instead of the one the lexer would create
    Token(i32),
}

#[derive(Clone, Debug)]
pub struct LRule {
    pub fragment: bool,
    pub mode: usize,
    pub tok: i32,
    pub alts: Vec<(L, Vec<Cmd>)>,
}

#[derive(Clone, Debug, Default)]
pub struct LGram {
    pub rules: Vec<LRule>,
    pub nmodes: usize,
    pub max_tok: i32,
    pub npreds: u32,
    pub nacts: u32,
    pub alphabet: Vec<i32>,
    /// predicate i holds iff bit ((pos % 3)) of this mask is set
    pub pred_mask: Vec<u8>,
    /// what custom action i does
    pub act_ops: Vec<AOp>,
    /// before_emit turns tokens of this type into type + 100 (0 = off)
    pub remap: i32,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct LOpts {
    pub nongreedy: bool,
    pub cmds: bool,
    pub acts: bool,
    pub preds: bool,
    pub modes: bool,
    pub unicode: bool,
    pub eof: bool,
    pub recursion: bool,
    /// custom actions use the lexer API (set_type, set_text, modes, token override, before_emit)
    pub ops: bool,
    /// alphabet may contain surrogate code units (not representable in str)
    pub surrogates: bool,
}

impl L {
    fn nullable(&self, g: &[LRule]) -> bool {
        match self {
            L::Set(_) | L::Not(_) | L::Dot => false,
            L::Eof | L::Pred(_) | L::Act(_) => true,
            L::Seq(v) => v.iter().all(|x| x.nullable(g)),
            L::Alt(v) => v.iter().any(|x| x.nullable(g)),
            L::Opt(..) | L::Star(..) => true,
            L::Plus(x, _) => x.nullable(g),
            L::Ref(r) => g
                .get(*r)
                .map(|r| r.alts.iter().any(|a| a.0.nullable(g)))
                .unwrap_or(false),
        }
    }
    fn show(&self, o: &mut String) {
        match self {
            L::Set(r) => show_ranges(r, o, false),
            L::Not(r) => show_ranges(r, o, true),
            L::Dot => o.push('.'),
            L::Eof => o.push_str("EOF"),
            L::Seq(v) => {
                if v.is_empty() {
                    o.push_str("/*empty*/");
                }
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(' ');
                    }
                    x.show(o)
                }
            }
            L::Alt(v) => {
                o.push('(');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    x.show(o)
                }
                o.push(')');
            }
            L::Opt(x, g) | L::Star(x, g) | L::Plus(x, g) => {
                o.push('(');
                x.show(o);
                o.push(')');
                o.push(match self {
                    L::Opt(..) => '?',
                    L::Star(..) => '*',
                    _ => '+',
                });
                if !*g {
                    o.push('?')
                }
            }
            L::Ref(r) => {
                let _ = write!(o, "R{}", r);
            }
            L::Pred(i) => {
                let _ = write!(o, "{{p{}}}?", i);
            }
            L::Act(i) => {
                let _ = write!(o, "{{a{}}}", i);
            }
        }
    }
    pub fn has_nongreedy(&self) -> bool {
        match self {
            L::Seq(v) | L::Alt(v) => v.iter().any(|x| x.has_nongreedy()),
            L::Opt(x, g) | L::Star(x, g) | L::Plus(x, g) => !*g || x.has_nongreedy(),
            _ => false,
        }
    }
}

pub fn show_char(c: i32) -> String {
    match char::from_u32(c as u32) {
        Some(ch) if ch.is_ascii_graphic() || ch == ' ' => ch.to_string(),
        Some('\n') => "\\n".into(),
        _ => format!("\\u{{{:X}}}", c),
    }
}
fn show_ranges(r: &Ranges, o: &mut String, not: bool) {
    if not {
        o.push('~')
    }
    o.push('[');
    for (a, b) in r {
        o.push_str(&show_char(*a));
        if a != b {
            o.push('-');
            o.push_str(&show_char(*b));
        }
    }
    o.push(']');
}

impl LGram {
    pub fn show(&self) -> String {
        let mut o = String::new();
        let mut mode = 0;
        for (i, r) in self.rules.iter().enumerate() {
            if r.mode != mode && !r.fragment {
                mode = r.mode;
                let _ = write!(o, "mode M{}; ", mode);
            }
            if r.fragment {
                o.push_str("fragment ");
            }
            let _ = write!(o, "R{}:", i);
            for (k, (a, c)) in r.alts.iter().enumerate() {
                if k > 0 {
                    o.push_str(" | ");
                }
                a.show(&mut o);
                if !c.is_empty() {
                    let _ = write!(o, " -> {:?}", c);
                }
            }
            if !r.fragment {
                let _ = write!(o, " /*type {}*/", r.tok);
            }
            o.push_str("; ");
        }
        if self.npreds > 0 {
            let _ = write!(o, " preds(pos%3 bitmask)={:?}", self.pred_mask);
        }
        if self.act_ops.iter().any(|x| *x != AOp::Nop) {
            let _ = write!(o, " actions={:?}", self.act_ops);
        }
        if self.remap != 0 {
            let _ = write!(o, " before_emit: {}->{}", self.remap, self.remap + 100);
        }
        o
    }
    pub fn pred(&self, i: u32, pos: usize) -> bool {
        let m = self.pred_mask.get(i as usize).copied().unwrap_or(7);
        (m >> (pos % 3)) & 1 == 1
    }
    pub fn has_nongreedy(&self) -> bool {
        self.rules.iter().any(|r| r.alts.iter().any(|a| a.0.has_nongreedy()))
    }
}

// ------------------------------------------------------------------ generator

const SPECIAL: [i32; 16] = [
    0x7f, 0x80, 0xe9, 0x4e2d, 0x0, 0xFFFF, 0xFFFE, 0x10000, 0x1F600, 0x10FFFF, 0xD7FF, 0xE000, 0x3042, 0x7FFF, 0x8000, 0xFFFD,
];

const SURR: [i32; 6] = [0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD9AB, 0xDEAD];

pub fn gen_alphabet(s: &mut Src, unicode: bool, surrogates: bool) -> Vec<i32> {
    let mut v: Vec<i32> = vec!['a' as i32, 'b' as i32, 'c' as i32];
    if s.chance(1, 2) {
        v.push('\n' as i32);
    }
    if s.chance(1, 3) {
        v.push(*s.pick(&['d' as i32, '1' as i32, ' ' as i32, '\r' as i32, '\t' as i32]));
    }
    if unicode {
        for _ in 0..s.draw(4) {
            let c = *s.pick(&SPECIAL);
            if !v.contains(&c) {
                v.push(c);
            }
        }
    }
    if surrogates {
        for _ in 0..s.draw(3) {
            let c = *s.pick(&SURR);
            if !v.contains(&c) {
                v.push(c);
            }
        }
    }
    v
}

fn gen_set(s: &mut Src, alpha: &[i32]) -> Ranges {
    let n = s.weighted(&[6, 3, 1]) + 1;
    let mut r = vec![];
    for _ in 0..n {
        let a = *s.pick(alpha);
        if s.chance(1, 4) {
            let b = *s.pick(alpha);
            r.push((a.min(b), a.max(b)));
        } else {
            r.push((a, a));
        }
    }
    norm(r)
}

struct Gen<'a> {
    s: &'a mut Src,
    o: LOpts,
    alpha: Vec<i32>,
    frags: Vec<usize>,
    npreds: u32,
    nacts: u32,
    g: Vec<LRule>,
}

impl<'a> Gen<'a> {
    fn atom(&mut self) -> L {
        match self.s.weighted(&[10, 2, 2, 1]) {
            0 => L::Set(gen_set(self.s, &self.alpha)),
            1 => {
                // short literal
                let n = self.s.range(2, 3);
                let v = (0..n)
                    .map(|_| {
                        let c = *self.s.pick(&self.alpha);
                        L::Set(vec![(c, c)])
                    })
                    .collect();
                L::Seq(v)
            }
            2 => {
                let r = gen_set(self.s, &self.alpha);
                L::Not(r)
            }
            _ => L::Dot,
        }
    }
    fn node(&mut self, depth: usize) -> L {
        if depth == 0 {
            return self.atom();
        }
        let frag = !self.frags.is_empty();
        match self.s.weighted(&[
            6,
            5,
            4,
            if frag { 3 } else { 0 },
            if self.o.preds { 2 } else { 0 },
            if self.o.acts { 2 } else { 0 },
        ]) {
            0 => self.atom(),
            1 => {
                let n = self.s.range(2, 3);
                L::Seq((0..n).map(|_| self.node(depth - 1)).collect())
            }
            2 => {
                let k = self.s.draw(3);
                let greedy = !(self.o.nongreedy && self.s.chance(2, 5));
                let mut b = self.node(depth - 1);
                if self.s.chance(1, 3) {
                    let c = self.node(depth - 1);
                    b = L::Alt(vec![b, c]);
                }
                if b.nullable(&self.g) {
                    b = L::Seq(vec![L::Set(gen_set(self.s, &self.alpha)), b]);
                }
                match k {
                    0 => L::Opt(Box::new(b), greedy),
                    1 => L::Star(Box::new(b), greedy),
                    _ => L::Plus(Box::new(b), greedy),
                }
            }
            3 => {
                let f = *self.s.pick(&self.frags);
                L::Ref(f)
            }
            4 => {
                let p = self.npreds;
                self.npreds += 1;
                let x = self.node(depth - 1);
                if self.s.chance(1, 2) {
                    L::Seq(vec![x, L::Pred(p)])
                } else {
                    L::Seq(vec![L::Pred(p), x])
                }
            }
            _ => {
                let a = self.nacts;
                self.nacts += 1;
                let x = self.node(depth - 1);
                match self.s.draw(3) {
                    0 => L::Seq(vec![x, L::Act(a)]),
                    1 => L::Seq(vec![L::Act(a), x]),
                    _ => {
                        let y = self.node(depth - 1);
                        L::Seq(vec![x, L::Act(a), y])
                    }
                }
            }
        }
    }
    fn token_body(&mut self, depth: usize) -> L {
        let b = if self.s.chance(1, 5) {
            let a = self.node(depth - 1);
            let c = self.node(depth - 1);
            L::Alt(vec![a, c])
        } else {
            self.node(depth)
        };
        let mut b = if b.nullable(&self.g) {
            L::Seq(vec![L::Set(gen_set(self.s, &self.alpha)), b])
        } else {
            b
        };
        if self.o.eof && self.s.chance(1, 8) {
            let c = L::Set(gen_set(self.s, &self.alpha));
            let d = L::Set(gen_set(self.s, &self.alpha));
            b = match self.s.draw(8) {
                // the end of input can be matched again and again
                0 => L::Seq(vec![b, L::Eof, L::Eof]),
                1 => L::Seq(vec![b, L::Alt(vec![c, L::Eof]), L::Alt(vec![L::Eof, d])]),
                2 => L::Seq(vec![b, L::Alt(vec![c, L::Eof]), d]),
                3 => {
                    let x = self.node(depth - 1);
                    L::Seq(vec![b, L::Opt(Box::new(L::Eof), self.s.chance(1, 2)), x])
                }
                _ => L::Seq(vec![b, L::Alt(vec![c, L::Eof])]),
            };
        }
        b
    }
}

fn gen_cmds(s: &mut Src, o: &LOpts, nmodes: usize, ntoks: i32) -> Vec<Cmd> {
    let mut v = vec![];
    if o.cmds && s.chance(1, 2) {
        let n = s.weighted(&[5, 2]) + 1;
        for _ in 0..n {
            v.push(match s.weighted(&[2, 2, 3, 2, if o.modes { 2 } else { 0 }, if o.modes { 3 } else { 0 }, if o.modes { 3 } else { 0 }]) {
                0 => Cmd::Skip,
                1 => Cmd::More,
                2 => Cmd::Type(1 + s.draw(ntoks as usize + 2) as i32),
                3 => Cmd::Channel(s.draw(4) as i32),
                4 => Cmd::Mode(s.draw(nmodes) as u32),
                5 => Cmd::Push(s.draw(nmodes) as u32),
                _ => Cmd::Pop,
            });
        }
    }
    v
}

fn gen_op(s: &mut Src, nmodes: usize, ntok: i32) -> AOp {
    match s.weighted(&[4, 2, 2, 1, 1, 1, 1, 1, 1, 2]) {
        0 => AOp::Nop,
        1 => AOp::SetText(*s.pick(&["", "x", "txt", "\u{e9}\n"])),
        2 => AOp::SetType(1 + s.draw(ntok as usize + 2) as i32),
        3 => AOp::SetChannel(s.draw(4) as i32),
        4 => AOp::Skip,
        5 => AOp::More,
        6 => AOp::Push(s.draw(nmodes) as u32),
        7 => AOp::Pop,
        8 => AOp::Mode(s.draw(nmodes) as u32),
        _ => AOp::Token(1 + s.draw(ntok as usize + 2) as i32),
    }
}

pub fn gen_lgram(s: &mut Src, o: LOpts) -> LGram {
    let alpha = gen_alphabet(s, o.unicode, o.surrogates);
    let nmodes = if o.modes { 1 + s.draw(3) } else { 1 };
    let nfrag = s.weighted(&[4, 2, 1]);
    let mut counts = vec![];
    for m in 0..nmodes {
        counts.push(if m == 0 { s.range(1, 5) } else { s.range(1, 3) });
    }
    let ntok: usize = counts.iter().sum();
    // token rules first, then fragments (fragments refer to later fragments only)
    let total = ntok + nfrag;
    let mut g = Gen { s, o, alpha: alpha.clone(), frags: vec![], npreds: 0, nacts: 0, g: vec![] };
    let dummy = LRule { fragment: true, mode: 0, tok: 0, alts: vec![(L::Dot, vec![])] };
    g.g = vec![dummy; total];
    for i in (ntok..total).rev() {
        let mut n = g.node(1);
        if g.o.recursion && g.s.chance(1, 2) {
            // guarded recursion: X: open (X | n)* close
            let a = *g.s.pick(&alpha);
            let b = *g.s.pick(&alpha);
            if n.nullable(&g.g) {
                n = L::Set(vec![(a, a)]);
            }
            let greedy = !(g.o.nongreedy && g.s.chance(1, 2));
            n = L::Seq(vec![
                L::Set(vec![(a, a)]),
                L::Star(Box::new(L::Alt(vec![L::Ref(i), n])), greedy),
                L::Set(vec![(b, b)]),
            ]);
        }
        g.g[i] = LRule { fragment: true, mode: 0, tok: 0, alts: vec![(n, vec![])] };
        g.frags.push(i);
    }
    let mut i = 0;
    for m in 0..nmodes {
        for _ in 0..counts[m] {
            let nalts = if g.s.chance(1, 5) { 2 } else { 1 };
            let mut alts = vec![];
            for _ in 0..nalts {
                let d = g.s.range(1, 3);
                let b = g.token_body(d);
                let c = gen_cmds(g.s, &o, nmodes, ntok as i32);
                alts.push((b, c));
            }
            g.g[i] = LRule { fragment: false, mode: m, tok: i as i32 + 1, alts };
            i += 1;
        }
    }
    if o.eof && g.s.chance(1, 12) {
        // a token for the end of input itself; without commands, `more` would never come to an end there
        let k = g.s.draw(ntok);
        g.g[k].alts = vec![(L::Eof, vec![])];
    }
    let (np, na) = (g.npreds, g.nacts);
    let rules = std::mem::take(&mut g.g);
    drop(g);
    let pred_mask = (0..np).map(|_| *s.pick(&[7u8, 0, 1, 2, 3, 5, 6, 4])).collect();
    let mut act_ops = vec![];
    for _ in 0..na {
        act_ops.push(if o.ops { gen_op(s, nmodes, ntok as i32) } else { AOp::Nop });
    }
    let remap = if o.ops && s.chance(1, 3) { 1 + s.draw(ntok) as i32 } else { 0 };
    LGram { rules, nmodes, max_tok: ntok as i32 + 2, npreds: np, nacts: na, alphabet: alpha, pred_mask, act_ops, remap }
}

fn ch(c: char) -> L {
    L::Set(vec![(c as i32, c as i32)])
}
fn lit(t: &str) -> L {
    L::Seq(t.chars().map(ch).collect())
}
fn cls(v: &[(char, char)]) -> L {
    L::Set(norm(v.iter().map(|(a, b)| (*a as i32, *b as i32)).collect()))
}
fn not(v: &str) -> L {
    L::Not(norm(v.chars().map(|c| (c as i32, c as i32)).collect()))
}
fn bx(l: L) -> Box<L> {
    Box::new(l)
}

/// lexers as people write them: keywords, identifiers, numbers, strings, comments, operators, island modes
pub fn gen_template(s: &mut Src, o: LOpts) -> LGram {
    let mut pool: Vec<(L, Vec<Cmd>)> = vec![];
    let letter = || cls(&[('a', 'z'), ('_', '_')]);
    let digit = || cls(&[('0', '9')]);
    for k in ["if", "in", "int", "interface", "for", "=", "==", "===", "+", "++", "+=", "<", "<<", "<=", "(", ")", "..", "."] {
        if s.chance(1, 3) {
            pool.push((lit(k), vec![]));
        }
    }
    if s.chance(3, 4) {
        pool.push((L::Seq(vec![letter(), L::Star(bx(L::Alt(vec![letter(), digit()])), true)]), vec![]));
    }
    if s.chance(2, 3) {
        pool.push((L::Plus(bx(digit()), true), vec![]));
    }
    if s.chance(1, 2) {
        pool.push((
            L::Seq(vec![L::Plus(bx(digit()), true), ch('.'), L::Star(bx(digit()), true), L::Opt(bx(L::Seq(vec![cls(&[('e', 'e'), ('E', 'E')]), L::Opt(bx(cls(&[('+', '+'), ('-', '-')])), true), L::Plus(bx(digit()), true)])), true)]),
            vec![],
        ));
    }
    if s.chance(1, 2) {
        pool.push((
            L::Seq(vec![ch('"'), L::Star(bx(L::Alt(vec![L::Seq(vec![ch('\\'), L::Dot]), not("\"\\")])), true), ch('"')]),
            vec![],
        ));
    }
    if o.nongreedy && s.chance(2, 3) {
        pool.push((L::Seq(vec![lit("/*"), L::Star(bx(L::Dot), false), lit("*/")]), if s.chance(1, 2) { vec![Cmd::Skip] } else { vec![] }));
    }
    if o.nongreedy && s.chance(1, 3) {
        pool.push((L::Seq(vec![ch('\''), L::Plus(bx(L::Dot), false), ch('\'')]), vec![]));
    }
    if s.chance(1, 2) {
        let close = if o.eof && s.chance(1, 2) { L::Alt(vec![ch('\n'), L::Eof]) } else { L::Opt(bx(ch('\n')), true) };
        pool.push((L::Seq(vec![lit("//"), L::Star(bx(not("\n")), true), close]), vec![]));
    }
    if s.chance(3, 4) {
        let c = if o.cmds { *s.pick(&[0, 1, 2]) } else { 2 };
        let cmds = match c {
            0 => vec![Cmd::Skip],
            1 => vec![Cmd::Channel(1)],
            _ => vec![],
        };
        pool.push((L::Plus(bx(cls(&[(' ', ' '), ('\t', '\t'), ('\n', '\n'), ('\r', '\r')])), true), cmds));
    }
    if pool.is_empty() {
        pool.push((lit("if"), vec![]));
    }
    // shuffle priorities
    for i in (1..pool.len()).rev() {
        let j = i - s.draw(i + 1);
        pool.swap(i, j);
    }
    let mut rules: Vec<LRule> = pool
        .into_iter()
        .enumerate()
        .map(|(i, a)| LRule { fragment: false, mode: 0, tok: i as i32 + 1, alts: vec![a] })
        .collect();
    let mut nmodes = 1;
    if o.modes && s.chance(1, 2) {
        nmodes = 2;
        let push = Cmd::Push(1);
        for (m, l, c) in [
            (0usize, lit("<"), vec![push]),
            (1, lit(">"), vec![Cmd::Pop]),
            (1, L::Plus(bx(cls(&[('a', 'z')])), true), vec![]),
            (1, lit("<"), vec![Cmd::Push(1)]),
        ] {
            let t = rules.len() as i32 + 1;
            rules.push(LRule { fragment: false, mode: m, tok: t, alts: vec![(l, c)] });
        }
    }
    let n = rules.len();
    if o.recursion && s.chance(1, 2) {
        let fi = n + 1;
        rules.push(LRule { fragment: false, mode: 0, tok: n as i32 + 1, alts: vec![(L::Ref(fi), vec![])] });
        rules.push(LRule {
            fragment: true,
            mode: 0,
            tok: 0,
            alts: vec![(L::Seq(vec![lit("(*"), L::Star(bx(L::Alt(vec![L::Ref(fi), L::Dot])), false), lit("*)")]), vec![])],
        });
    }
    let max_tok = rules.len() as i32 + 2;
    let alphabet = "ifnt=+<.(*)/\"\\' \n1e_".chars().map(|c| c as i32).collect();
    LGram { rules, nmodes, max_tok, npreds: 0, nacts: 0, alphabet, pred_mask: vec![], act_ops: vec![], remap: 0 }
}

/// random input: mixture of sentences sampled from the rules and random alphabet characters
pub fn gen_linput(s: &mut Src, g: &LGram, max: usize) -> Vec<i32> {
    let mut v = vec![];
    let n = s.len(0, 7);
    for _ in 0..n {
        if v.len() > max {
            break;
        }
        if s.chance(3, 5) {
            let toks: Vec<usize> = (0..g.rules.len()).filter(|i| !g.rules[*i].fragment).collect();
            let r = *s.pick(&toks);
            let mut fuel = 14;
            sample_rule(s, g, r, &mut v, &mut fuel, 4);
        } else {
            for _ in 0..s.range(1, 3) {
                if s.chance(1, 16) {
                    v.push(*s.pick(&['z' as i32, '\n' as i32, 0x1F600, 0xe9, 0x7f, 0]));
                } else {
                    v.push(*s.pick(&g.alphabet));
                }
            }
        }
    }
    v.truncate(max);
    v
}
fn sample_rule(s: &mut Src, g: &LGram, r: usize, out: &mut Vec<i32>, fuel: &mut i32, d: usize) {
    let a = s.draw(g.rules[r].alts.len());
    sample(s, g, &g.rules[r].alts[a].0, out, fuel, d);
}
fn valid(c: i32) -> bool {
    char::from_u32(c as u32).is_some()
}
fn sample(s: &mut Src, g: &LGram, n: &L, out: &mut Vec<i32>, fuel: &mut i32, d: usize) {
    *fuel -= 1;
    if *fuel < 0 {
        return;
    }
    match n {
        L::Set(r) => {
            let (a, b) = *s.pick(r);
            let c = if s.chance(1, 2) { a } else { b };
            if valid(c) {
                out.push(c)
            }
        }
        L::Not(r) => {
            for _ in 0..3 {
                let c = *s.pick(&g.alphabet);
                if !in_ranges(r, c) {
                    out.push(c);
                    return;
                }
            }
            if !in_ranges(r, 'z' as i32) {
                out.push('z' as i32)
            }
        }
        L::Dot => out.push(*s.pick(&g.alphabet)),
        L::Eof | L::Pred(_) | L::Act(_) => {}
        L::Seq(v) => {
            for x in v {
                sample(s, g, x, out, fuel, d)
            }
        }
        L::Alt(v) => {
            let x = s.pick(v);
            sample(s, g, x, out, fuel, d)
        }
        L::Opt(x, _) => {
            if s.chance(1, 2) {
                sample(s, g, x, out, fuel, d)
            }
        }
        L::Star(x, _) => {
            for _ in 0..s.draw(3) {
                sample(s, g, x, out, fuel, d)
            }
        }
        L::Plus(x, _) => {
            for _ in 0..1 + s.draw(2) {
                sample(s, g, x, out, fuel, d)
            }
        }
        L::Ref(r) => {
            if d > 0 {
                sample_rule(s, g, *r, out, fuel, d - 1)
            }
        }
    }
}

// ------------------------------------------------------------------ ATN

pub fn compile(g: &LGram) -> Atn {
    let mut a = Atn { lexer: true, max_tok: g.max_tok as u32, ..Default::default() };
    for _ in 0..g.nmodes {
        let s = a.state(TOKEN_START, usize::MAX);
        a.modes.push(s);
        a.decision(s);
    }
    let mut stops = vec![];
    for (i, r) in g.rules.iter().enumerate() {
        let s = a.state(RULE_START, i);
        let e = a.state(RULE_STOP, i);
        a.rule_start.push(s);
        a.rule_tok.push(if r.fragment { 0 } else { r.tok });
        stops.push(e);
    }
    for (i, r) in g.rules.iter().enumerate() {
        let mut hs = vec![];
        for (n, cmds) in &r.alts {
            let (l, mut e) = comp(&mut a, i, n);
            for c in cmds {
                let act = match c {
                    Cmd::Skip => LAct::Skip,
                    Cmd::More => LAct::More,
                    Cmd::Type(t) => LAct::Type(*t),
                    Cmd::Channel(c) => LAct::Channel(*c),
                    Cmd::Mode(m) => LAct::Mode(*m),
                    Cmd::Push(m) => LAct::PushMode(*m),
                    Cmd::Pop => LAct::PopMode,
                };
                let idx = a.act(act);
                let x = a.state(BASIC, i);
                a.states[e].tr.push(Tr::Action { to: x, rule: i, idx, ctx: false });
                e = x;
            }
            hs.push((l, e));
        }
        let (l, e) = block(&mut a, i, hs);
        a.eps(a.rule_start[i], l);
        a.eps(e, stops[i]);
    }
    for (i, r) in g.rules.iter().enumerate() {
        if !r.fragment {
            let m = a.modes[r.mode];
            let t = a.rule_start[i];
            a.eps(m, t);
        }
    }
    a
}

fn block(a: &mut Atn, rule: usize, hs: Vec<(usize, usize)>) -> (usize, usize) {
    if hs.len() == 1 {
        return hs[0];
    }
    let s = a.state(BLOCK_START, rule);
    let e = a.state(BLOCK_END, rule);
    a.states[s].extra = e;
    for (l, r) in hs {
        a.eps(s, l);
        a.eps(r, e);
    }
    a.decision(s);
    (s, e)
}

fn inner_block(a: &mut Atn, rule: usize, ty: u32, n: &L) -> (usize, usize) {
    let alts: Vec<&L> = match n {
        L::Alt(v) => v.iter().collect(),
        x => vec![x],
    };
    let s = a.state(ty, rule);
    let e = a.state(BLOCK_END, rule);
    a.states[s].extra = e;
    for x in &alts {
        let (l, r) = comp(a, rule, x);
        a.eps(s, l);
        a.eps(r, e);
    }
    if alts.len() > 1 && ty != BLOCK_START {
        a.decision(s);
    }
    (s, e)
}

fn comp(a: &mut Atn, rule: usize, n: &L) -> (usize, usize) {
    match n {
        L::Set(r) => {
            let l = a.state(BASIC, rule);
            let e = a.state(BASIC, rule);
            let t = if r.len() == 1 && r[0].1 <= 0xFFFF {
                if r[0].0 == r[0].1 {
                    Tr::Atom(e, r[0].0)
                } else {
                    Tr::Range(e, r[0].0, r[0].1)
                }
            } else {
                Tr::Set(e, r.clone())
            };
            a.states[l].tr.push(t);
            (l, e)
        }
        L::Not(r) => {
            let l = a.state(BASIC, rule);
            let e = a.state(BASIC, rule);
            a.states[l].tr.push(Tr::NotSet(e, r.clone()));
            (l, e)
        }
        L::Dot => {
            let l = a.state(BASIC, rule);
            let e = a.state(BASIC, rule);
            a.states[l].tr.push(Tr::Wild(e));
            (l, e)
        }
        L::Eof => {
            let l = a.state(BASIC, rule);
            let e = a.state(BASIC, rule);
            a.states[l].tr.push(Tr::Atom(e, EOF));
            (l, e)
        }
        L::Seq(v) => {
            if v.is_empty() {
                let l = a.state(BASIC, rule);
                let e = a.state(BASIC, rule);
                a.eps(l, e);
                return (l, e);
            }
            let hs: Vec<_> = v.iter().map(|x| comp(a, rule, x)).collect();
            for i in 0..hs.len() - 1 {
                a.eps(hs[i].1, hs[i + 1].0);
            }
            (hs[0].0, hs[hs.len() - 1].1)
        }
        L::Alt(v) => {
            let hs: Vec<_> = v.iter().map(|x| comp(a, rule, x)).collect();
            block(a, rule, hs)
        }
        L::Opt(x, greedy) => {
            let (s, e) = inner_block(a, rule, BLOCK_START, x);
            a.decision(s);
            a.states[s].nongreedy = !greedy;
            if *greedy {
                a.eps(s, e);
            } else {
                a.states[s].tr.insert(0, Tr::Eps(e));
            }
            (s, e)
        }
        L::Plus(x, greedy) => {
            let (s, e) = inner_block(a, rule, PLUS_BLOCK_START, x);
            let lp = a.state(PLUS_LOOP_BACK, rule);
            a.states[lp].nongreedy = !greedy;
            a.decision(lp);
            let end = a.state(LOOP_END, rule);
            a.states[end].extra = lp;
            a.eps(e, lp);
            if *greedy {
                a.eps(lp, s);
                a.eps(lp, end);
            } else {
                a.eps(lp, end);
                a.eps(lp, s);
            }
            (s, end)
        }
        L::Star(x, greedy) => {
            let (s, e) = inner_block(a, rule, STAR_BLOCK_START, x);
            let en = a.state(STAR_LOOP_ENTRY, rule);
            a.states[en].nongreedy = !greedy;
            a.decision(en);
            let end = a.state(LOOP_END, rule);
            let lp = a.state(STAR_LOOP_BACK, rule);
            a.states[end].extra = lp;
            if *greedy {
                a.eps(en, s);
                a.eps(en, end);
            } else {
                a.eps(en, end);
                a.eps(en, s);
            }
            a.eps(e, lp);
            a.eps(lp, en);
            (en, end)
        }
        L::Ref(r) => {
            let l = a.state(BASIC, rule);
            let e = a.state(BASIC, rule);
            let st = a.rule_start[*r];
            a.states[l].tr.push(Tr::Rule { start: st, rule: *r, prec: 0, follow: e });
            (l, e)
        }
        L::Pred(i) => {
            let l = a.state(BASIC, rule);
            let e = a.state(BASIC, rule);
            a.states[l].tr.push(Tr::Pred { to: e, rule, idx: *i, ctx: false });
            (l, e)
        }
        L::Act(i) => {
            let l = a.state(BASIC, rule);
            let e = a.state(BASIC, rule);
            let idx = a.act(LAct::Custom(rule, *i));
            a.states[l].tr.push(Tr::Action { to: e, rule, idx, ctx: false });
            (l, e)
        }
    }
}

// ------------------------------------------------------------------ reference tokenizer

#[derive(Clone, Debug, PartialEq)]
pub struct RTok {
    /// text set by an action
    pub text: Option<&'static str>,
    pub ty: i32,
    pub channel: i32,
    pub start: i32,
    pub stop: i32,
    pub line: i32,
    pub col: i32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RErr {
    pub line: i32,
    pub col: i32,
    /// token start .. index of offending char (exclusive end clamps at input end)
    pub from: usize,
    pub to_incl: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ActEv {
    pub rule: usize,
    pub idx: u32,
    pub pos: usize,
    pub tok_start: usize,
    /// text set by an earlier action of the same token
    pub text: Option<&'static str>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct LexOut {
    /// tokens that went through the before_emit callback
    pub emits: usize,
    pub toks: Vec<RTok>,
    pub errs: Vec<RErr>,
    pub acts: Vec<ActEv>,
    /// per token: the last input position that had to be looked at so far
    pub far: Vec<usize>,
}

// Items of the reference matcher's work stack.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum It {
    Node(*const L),
    /// decision point of a loop (star entry / plus loopback): body, greedy
    Loop(*const L, bool),
    /// remaining elements of a sequence
    SeqFrom(*const L, usize),
    Cmds(usize, usize), // rule, alt
    Ret,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Cfg {
    rule: usize,
    stack: Vec<It>,
    depth: usize,
    ng: bool,
    acts: Vec<(usize, A, usize)>, // rule, action, offset
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum A {
    Custom(u32),
    Cmd(usize, usize, usize), // rule, alt, cmd index
}

pub enum Match {
    Ok { end: usize, rule: usize, acts: Vec<(usize, usize, ActKind)> },
    Eof,
    Fail { at: usize },
}
#[derive(Clone, Debug)]
pub enum ActKind {
    Custom(u32),
    Cmd(Cmd),
}

struct Sim<'a> {
    g: &'a LGram,
    input: &'a [i32],
    steps: usize,
    limit: usize,
    far: usize,
}

impl<'a> Sim<'a> {
    /// ordered epsilon closure. Returns whether the configuration's rule has reached its end.
    fn close(&mut self, mut c: Cfg, pos: usize, out: &mut Vec<Cfg>, seen: &mut HashSet<Cfg>, mut acc: bool, eof: bool) -> bool {
        self.steps += 1;
        if self.steps > self.limit {
            return acc;
        }
        let it = match c.stack.pop() {
            None => {
                if seen.insert(c.clone()) {
                    out.push(c);
                }
                return true;
            }
            Some(i) => i,
        };
        match it {
            It::Ret => {
                c.depth -= 1;
                self.close(c, pos, out, seen, acc, eof)
            }
            It::Cmds(r, alt) => {
                if c.depth == 0 {
                    let start = pos;
                    for (k, _) in self.g.rules[r].alts[alt].1.iter().enumerate() {
                        c.acts.push((r, A::Cmd(r, alt, k), start));
                    }
                }
                self.close(c, pos, out, seen, acc, eof)
            }
            It::SeqFrom(p, i) => {
                let v = match unsafe { &*p } {
                    L::Seq(v) => v,
                    _ => unreachable!(),
                };
                if i < v.len() {
                    if i + 1 < v.len() {
                        c.stack.push(It::SeqFrom(p, i + 1));
                    }
                    c.stack.push(It::Node(&v[i]));
                }
                self.close(c, pos, out, seen, acc, eof)
            }
            It::Loop(b, greedy) => {
                if !greedy {
                    c.ng = true;
                }
                let mut iter = c.clone();
                iter.stack.push(It::Loop(b, greedy));
                iter.stack.push(It::Node(b));
                let order = if greedy { [iter, c] } else { [c, iter] };
                for x in order {
                    acc = self.close(x, pos, out, seen, acc, eof);
                }
                acc
            }
            It::Node(p) => {
                let n = unsafe { &*p };
                match n {
                    L::Set(_) | L::Not(_) | L::Dot => {
                        c.stack.push(It::Node(p));
                        if !acc || !c.ng {
                            if seen.insert(c.clone()) {
                                out.push(c);
                            }
                        }
                        acc
                    }
                    L::Eof => {
                        let mut k = c.clone();
                        k.stack.push(It::Node(p));
                        if !acc || !k.ng {
                            if seen.insert(k.clone()) {
                                out.push(k);
                            }
                        }
                        if eof {
                            acc = self.close(c, pos, out, seen, acc, eof);
                        }
                        acc
                    }
                    L::Seq(_) => {
                        c.stack.push(It::SeqFrom(p, 0));
                        self.close(c, pos, out, seen, acc, eof)
                    }
                    L::Alt(v) => {
                        for x in v {
                            let mut k = c.clone();
                            k.stack.push(It::Node(x));
                            acc = self.close(k, pos, out, seen, acc, eof);
                        }
                        acc
                    }
                    L::Opt(x, greedy) => {
                        if !greedy {
                            c.ng = true;
                        }
                        // alternatives of the optional block, then (or before, if non-greedy) the exit branch
                        let alts: Vec<&L> = match &**x {
                            L::Alt(v) => v.iter().collect(),
                            y => vec![y],
                        };
                        let mut order: Vec<Cfg> = alts
                            .iter()
                            .map(|y| {
                                let mut k = c.clone();
                                k.stack.push(It::Node(*y as *const L));
                                k
                            })
                            .collect();
                        if *greedy {
                            order.push(c);
                        } else {
                            order.insert(0, c);
                        }
                        for k in order {
                            acc = self.close(k, pos, out, seen, acc, eof);
                        }
                        acc
                    }
                    L::Star(x, greedy) => {
                        c.stack.push(It::Loop(&**x, *greedy));
                        self.close(c, pos, out, seen, acc, eof)
                    }
                    L::Plus(x, greedy) => {
                        c.stack.push(It::Loop(&**x, *greedy));
                        c.stack.push(It::Node(&**x));
                        self.close(c, pos, out, seen, acc, eof)
                    }
                    L::Ref(r) => {
                        c.depth += 1;
                        c.stack.push(It::Ret);
                        for (_, (b, _)) in self.g.rules[*r].alts.iter().enumerate() {
                            let mut k = c.clone();
                            k.stack.push(It::Node(b));
                            acc = self.close(k, pos, out, seen, acc, eof);
                        }
                        acc
                    }
                    L::Pred(i) => {
                        if self.g.pred(*i, pos) {
                            self.close(c, pos, out, seen, acc, eof)
                        } else {
                            acc
                        }
                    }
                    L::Act(i) => {
                        if c.depth == 0 {
                            c.acts.push((c.rule, A::Custom(*i), pos));
                        }
                        self.close(c, pos, out, seen, acc, eof)
                    }
                }
            }
        }
    }

    fn run(&mut self, mode: usize, start: usize) -> Match {
        let mut cur: Vec<Cfg> = vec![];
        let mut seen = HashSet::new();
        for (i, r) in self.g.rules.iter().enumerate() {
            if r.fragment || r.mode != mode {
                continue;
            }
            let mut acc = false;
            for (k, (b, _)) in r.alts.iter().enumerate() {
                let c = Cfg { rule: i, stack: vec![It::Cmds(i, k), It::Node(b)], depth: 0, ng: false, acts: vec![] };
                acc = self.close(c, start, &mut cur, &mut seen, acc, false);
            }
        }
        let mut pos = start;
        let mut best: Option<(usize, Cfg)> = None;
        loop {
            if self.steps > self.limit {
                return Match::Fail { at: pos };
            }
            self.far = self.far.max(pos);
            let eof = pos >= self.input.len();
            let t = if eof { EOF } else { self.input[pos] };
            let mut next: Vec<Cfg> = vec![];
            let mut seen = HashSet::new();
            let npos = if eof { pos } else { pos + 1 };
            let mut skip: Option<usize> = None;
            for c in &cur {
                let acc = skip == Some(c.rule);
                if acc && c.ng {
                    continue;
                }
                let p = match c.stack.last() {
                    Some(It::Node(p)) => *p,
                    _ => continue,
                };
                let ok = match unsafe { &*p } {
                    L::Set(r) => !eof && in_ranges(r, t),
                    L::Not(r) => !eof && !in_ranges(r, t),
                    L::Dot => !eof,
                    L::Eof => eof,
                    _ => unreachable!(),
                };
                if ok {
                    let mut k = c.clone();
                    k.stack.pop();
                    if self.close(k, npos, &mut next, &mut seen, acc, eof) {
                        skip = Some(c.rule);
                    }
                }
            }
            if next.is_empty() {
                return match best {
                    Some((end, c)) => Match::Ok {
                        end,
                        rule: c.rule,
                        acts: c
                            .acts
                            .iter()
                            .map(|(r, a, off)| {
                                (
                                    *r,
                                    *off,
                                    match a {
                                        A::Custom(i) => ActKind::Custom(*i),
                                        A::Cmd(r, al, k) => ActKind::Cmd(self.g.rules[*r].alts[*al].1[*k].clone()),
                                    },
                                )
                            })
                            .collect(),
                    },
                    None => {
                        if eof && pos == start {
                            Match::Eof
                        } else {
                            Match::Fail { at: pos }
                        }
                    }
                };
            }
            pos = npos;
            if let Some(c) = next.iter().find(|c| c.stack.is_empty()) {
                best = Some((pos, c.clone()));
                if eof {
                    // an accept reached on EOF ends the scan
                    let (end, c) = best.unwrap();
                    return Match::Ok {
                        end,
                        rule: c.rule,
                        acts: c
                            .acts
                            .iter()
                            .map(|(r, a, off)| {
                                (
                                    *r,
                                    *off,
                                    match a {
                                        A::Custom(i) => ActKind::Custom(*i),
                                        A::Cmd(r, al, k) => ActKind::Cmd(self.g.rules[*r].alts[*al].1[*k].clone()),
                                    },
                                )
                            })
                            .collect(),
                    };
                }
            }
            cur = next;
        }
    }
}

/// returns None if the reference exceeded its step budget
pub fn ref_lex(g: &LGram, input: &[i32], limit: usize) -> Option<LexOut> {
    let mut out = LexOut::default();
    let (mut pos, mut line, mut col) = (0usize, 1i32, 0i32);
    let mut mode = 0usize;
    let mut stack: Vec<usize> = vec![];
    let mut hit_eof = false;
    let adv = |from: usize, to: usize, line: &mut i32, col: &mut i32| {
        for c in &input[from..to] {
            if *c == '\n' as i32 {
                *line += 1;
                *col = 0;
            } else {
                *col += 1;
            }
        }
    };
    let mut sim = Sim { g, input, steps: 0, limit, far: 0 };
    'outer: loop {
        if hit_eof {
            out.far.push(sim.far);
            out.toks.push(RTok { text: None, ty: EOF, channel: 0, start: pos as i32, stop: pos as i32 - 1, line, col });
            return Some(out);
        }
        let (ts, tl, tc) = (pos, line, col);
        let mut channel = 0;
        let mut ty: i32;
        let mut text: Option<&'static str> = None;
        let mut over: Option<RTok> = None;
        loop {
            ty = 0;
            let m = sim.run(mode, pos);
            if sim.steps > sim.limit {
                return None;
            }
            let base;
            match m {
                Match::Eof => base = EOF,
                Match::Fail { at } => {
                    out.errs.push(RErr { line: tl, col: tc, from: ts, to_incl: at });
                    let to = (at + 1).min(input.len());
                    adv(pos, to, &mut line, &mut col);
                    pos = to;
                    base = -3;
                }
                Match::Ok { end, rule, acts } => {
                    adv(pos, end, &mut line, &mut col);
                    pos = end;
                    base = g.rules[rule].tok;
                    for (r, off, a) in acts {
                        match a {
                            ActKind::Custom(i) => {
                                out.acts.push(ActEv { rule: r, idx: i, pos: off, tok_start: ts, text });
                                match g.act_ops.get(i as usize).cloned().unwrap_or(AOp::Nop) {
                                    AOp::Nop => {}
                                    AOp::SetText(t) => text = Some(t),
                                    AOp::SetType(t) => ty = t,
                                    AOp::SetChannel(c) => channel = c,
                                    AOp::Skip => ty = -3,
                                    AOp::More => ty = -2,
                                    AOp::Push(m) => {
                                        stack.push(mode);
                                        mode = m as usize;
                                    }
                                    AOp::Pop => {
                                        if let Some(m) = stack.pop() {
                                            mode = m
                                        }
                                    }
                                    AOp::Mode(m) => mode = m as usize,
                                    AOp::Token(t) => {
                                        over = Some(RTok { text: Some("override"), ty: t, channel: 0, start: ts as i32, stop: off as i32 - 1, line: tl, col: tc })
                                    }
                                }
                            }
                            ActKind::Cmd(c) => match c {
                                Cmd::Skip => ty = -3,
                                Cmd::More => ty = -2,
                                Cmd::Type(t) => ty = t,
                                Cmd::Channel(c) => channel = c,
                                Cmd::Mode(m) => mode = m as usize,
                                Cmd::Push(m) => {
                                    stack.push(mode);
                                    mode = m as usize;
                                }
                                Cmd::Pop => {
                                    if let Some(m) = stack.pop() {
                                        mode = m
                                    }
                                }
                            },
                        }
                    }
                }
            }
            sim.far = sim.far.max(pos);
            if pos >= input.len() {
                hit_eof = true;
            }
            if ty == 0 {
                ty = base;
            }
            if ty == -3 {
                continue 'outer;
            }
            if ty != -2 {
                break;
            }
        }
        if let Some(t) = over {
            let ty = t.ty;
            out.far.push(sim.far);
            out.toks.push(t);
            if ty == EOF {
                return Some(out);
            }
            continue 'outer;
        }
        out.emits += 1;
        if g.remap != 0 && ty == g.remap {
            ty += 100;
        }
        out.far.push(sim.far);
        out.toks.push(RTok { text, ty, channel, start: ts as i32, stop: pos as i32 - 1, line: tl, col: tc });
        if ty == EOF {
            return Some(out);
        }
    }
}

// ------------------------------------------------------------------ pure language oracle (greedy, predicate-free grammars)

pub struct Lang<'a> {
    g: &'a LGram,
    input: &'a [i32],
    memo: HashMap<(*const L, usize), Vec<usize>>,
}
impl<'a> Lang<'a> {
    pub fn new(g: &'a LGram, input: &'a [i32]) -> Self {
        Lang { g, input, memo: HashMap::new() }
    }
    pub fn rule_ends(&mut self, r: usize, pos: usize) -> Vec<usize> {
        let mut v = vec![];
        let g = self.g;
        for (b, _) in &g.rules[r].alts {
            v.extend(self.ends(b, pos));
        }
        v.sort();
        v.dedup();
        v
    }
    pub fn ends(&mut self, n: &L, pos: usize) -> Vec<usize> {
        let k = (n as *const L, pos);
        if let Some(v) = self.memo.get(&k) {
            return v.clone();
        }
        let mut v = match n {
            L::Set(r) => if pos < self.input.len() && in_ranges(r, self.input[pos]) { vec![pos + 1] } else { vec![] },
            L::Not(r) => if pos < self.input.len() && !in_ranges(r, self.input[pos]) { vec![pos + 1] } else { vec![] },
            L::Dot => if pos < self.input.len() { vec![pos + 1] } else { vec![] },
            L::Eof => if pos == self.input.len() { vec![pos] } else { vec![] },
            L::Act(_) => vec![pos],
            L::Pred(i) => if self.g.pred(*i, pos) { vec![pos] } else { vec![] },
            L::Seq(x) => {
                let mut cur = vec![pos];
                for y in x {
                    let mut nx = vec![];
                    for p in cur {
                        nx.extend(self.ends(y, p));
                    }
                    nx.sort();
                    nx.dedup();
                    cur = nx;
                }
                cur
            }
            L::Alt(x) => {
                let mut o = vec![];
                for y in x {
                    o.extend(self.ends(y, pos));
                }
                o
            }
            L::Opt(x, _) => {
                let mut o = self.ends(x, pos);
                o.push(pos);
                o
            }
            L::Star(x, _) | L::Plus(x, _) => {
                let mut all = vec![];
                let mut todo = if let L::Star(..) = n { vec![pos] } else { self.ends(x, pos) };
                while let Some(p) = todo.pop() {
                    if !all.contains(&p) {
                        all.push(p);
                        todo.extend(self.ends(x, p));
                    }
                }
                all
            }
            L::Ref(r) => self.rule_ends(*r, pos),
        };
        v.sort();
        v.dedup();
        self.memo.insert(k, v.clone());
        v
    }
    /// longest match / first rule at pos in mode
    pub fn best(&mut self, mode: usize, pos: usize) -> Option<(usize, usize)> {
        let mut best: Option<(usize, usize)> = None;
        for r in 0..self.g.rules.len() {
            if self.g.rules[r].fragment || self.g.rules[r].mode != mode {
                continue;
            }
            if let Some(e) = self.rule_ends(r, pos).into_iter().max() {
                if best.map_or(true, |b| e > b.0) {
                    best = Some((e, r));
                }
            }
        }
        best
    }
}
