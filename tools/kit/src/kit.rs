//! Small stand-alone kit for demonstrations: ANTLR-like grammar text -> serialized ATN -> lexer / parser of the crate.
#![allow(dead_code, unused)]
use crate::atnc::{self, *};
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::char_stream::CharStream;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::error_strategy::*;
use antlr_rust::errors::*;
use antlr_rust::int_stream::IntStream;
use antlr_rust::lexer::{BaseLexer, Lexer, LexerRecog};
use antlr_rust::lexer_atn_simulator::LexerATNSimulator;
use antlr_rust::parser::{BaseParser, Parser, ParserNodeType, ParserRecog};
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::parser_rule_context::{BaseParserRuleContext, ParserRuleContext};
use antlr_rust::recognizer::{Actions, Recognizer};
use antlr_rust::rule_context::{CustomRuleContext, EmptyContextType, RuleContext};
use antlr_rust::token::{Token, TOKEN_EOF};
use antlr_rust::token_factory::*;
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::tree::*;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::{InputStream, PredictionContextCache, PredictionMode, RwLock, TidAble, TokenSource};
use std::borrow::{Borrow, Cow};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- grammar text
#[derive(Clone, Debug)]
pub enum G {
    Set(Ranges, bool),
    Dot,
    Seq(Vec<G>),
    Alt(Vec<G>),
    Opt(Box<G>, bool),
    Star(Box<G>, bool),
    Plus(Box<G>, bool),
    Ref(String, u32),
    Pred(u32),
    Act(u32),
    Right,
}
#[derive(Clone, Debug)]
pub struct RuleDef {
    pub name: String,
    pub fragment: bool,
    pub mode: usize,
    pub alts: Vec<(G, Vec<(String, i32)>)>,
}
struct P<'a> {
    c: Vec<char>,
    i: usize,
    s: std::marker::PhantomData<&'a ()>,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> char {
        self.ws();
        *self.c.get(self.i).unwrap_or(&'\0')
    }
    fn eat(&mut self, x: char) -> bool {
        if self.peek() == x {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> String {
        self.ws();
        let mut s = String::new();
        while self.i < self.c.len() && (self.c[self.i].is_alphanumeric() || self.c[self.i] == '_') {
            s.push(self.c[self.i]);
            self.i += 1;
        }
        assert!(!s.is_empty(), "name expected at {}", self.i);
        s
    }
    fn ch(&mut self) -> i32 {
        let c = self.c[self.i];
        self.i += 1;
        if c == '\\' {
            let d = self.c[self.i];
            self.i += 1;
            match d {
                'n' => 10,
                'r' => 13,
                't' => 9,
                x => x as i32,
            }
        } else {
            c as i32
        }
    }
    fn alts(&mut self) -> Vec<(G, Vec<(String, i32)>)> {
        let mut v = vec![];
        loop {
            let mut seq = vec![];
            while !matches!(self.peek(), '|' | ')' | ';' | '-' | '\0') {
                let x = self.elem();
                seq.push(x);
            }
            let mut cmds = vec![];
            if self.eat('-') {
                assert!(self.eat('>'));
                loop {
                    let n = self.name();
                    let mut a = 0;
                    if self.eat('(') {
                        a = self.name().parse().unwrap();
                        assert!(self.eat(')'));
                    }
                    cmds.push((n, a));
                    if !self.eat(',') {
                        break;
                    }
                }
            }
            v.push((G::Seq(seq), cmds));
            if !self.eat('|') {
                return v;
            }
        }
    }
    fn elem(&mut self) -> G {
        let mut not = false;
        if self.eat('~') {
            not = true;
        }
        let a = match self.peek() {
            '\'' => {
                self.i += 1;
                let mut v = vec![];
                while self.c[self.i] != '\'' {
                    let c = self.ch();
                    v.push(G::Set(vec![(c, c)], not));
                }
                self.i += 1;
                if v.len() == 1 {
                    v.pop().unwrap()
                } else {
                    G::Seq(v)
                }
            }
            '[' => {
                self.i += 1;
                let mut v = vec![];
                while self.c[self.i] != ']' {
                    let a = self.ch();
                    let mut b = a;
                    if self.c[self.i] == '-' && self.c[self.i + 1] != ']' {
                        self.i += 1;
                        b = self.ch();
                    }
                    v.push((a, b));
                }
                self.i += 1;
                G::Set(norm(v), not)
            }
            '(' => {
                self.i += 1;
                let mut v: Vec<G> = self.alts().into_iter().map(|x| x.0).collect();
                assert!(self.eat(')'));
                if not {
                    // ~(A|B) over tokens
                    let mut r = vec![];
                    for g in v {
                        if let G::Seq(s) = g {
                            match &s[0] {
                                G::Ref(n, _) => r.push((tok(n), tok(n))),
                                G::Set(x, _) => r.extend(x.clone()),
                                _ => panic!(),
                            }
                        }
                    }
                    G::Set(norm(r), true)
                } else if v.len() == 1 {
                    v.pop().unwrap()
                } else {
                    G::Alt(v)
                }
            }
            '.' => {
                self.i += 1;
                G::Dot
            }
            '>' => {
                self.i += 1;
                return G::Right;
            }
            '{' => {
                self.i += 1;
                let n = self.name().parse().unwrap();
                assert!(self.eat('}'));
                if self.eat('?') {
                    return G::Pred(n);
                }
                return G::Act(n);
            }
            _ => {
                let n = self.name();
                if not {
                    G::Set(vec![(tok(&n), tok(&n))], true)
                } else {
                    G::Ref(n, 0)
                }
            }
        };
        let k = *self.c.get(self.i).unwrap_or(&' ');
        if matches!(k, '?' | '*' | '+') {
            self.i += 1;
            let mut greedy = true;
            if self.c.get(self.i) == Some(&'?') {
                self.i += 1;
                greedy = false;
            }
            let b = Box::new(a);
            return match k {
                '?' => G::Opt(b, greedy),
                '*' => G::Star(b, greedy),
                _ => G::Plus(b, greedy),
            };
        }
        a
    }
}
fn tok(n: &str) -> i32 {
    if n == "EOF" {
        -1
    } else {
        n.chars().next().unwrap() as i32 - 'A' as i32 + 1
    }
}
pub fn parse_grammar(s: &str) -> (Vec<RuleDef>, usize) {
    let mut p = P { c: s.chars().collect(), i: 0, s: Default::default() };
    let mut v = vec![];
    let mut mode = 0;
    while p.peek() != '\0' {
        let mut n = p.name();
        if n == "mode" {
            p.name();
            mode += 1;
            assert!(p.eat(';'));
            continue;
        }
        let fragment = n == "fragment";
        if fragment {
            n = p.name();
        }
        assert!(p.eat(':'));
        let alts = p.alts();
        assert!(p.eat(';'));
        v.push(RuleDef { name: n, fragment, mode, alts });
    }
    (v, mode + 1)
}

// ---------------------------------------------------------------- ATN construction
struct C {
    a: Atn,
    idx: HashMap<String, usize>,
    lexer: bool,
    npred: Vec<u32>,
    pub preds: HashMap<(usize, usize), u32>,
}
impl C {
    fn basic(&mut self, r: usize, f: impl FnOnce(usize) -> Tr) -> (usize, usize) {
        let l = self.a.state(BASIC, r);
        let e = self.a.state(BASIC, r);
        let t = f(e);
        self.a.states[l].tr.push(t);
        (l, e)
    }
    fn block(&mut self, r: usize, hs: &[(usize, usize)], ty: u32, dec: bool) -> (usize, usize) {
        let s = self.a.state(ty, r);
        let e = self.a.state(BLOCK_END, r);
        self.a.states[s].extra = e;
        for (l, x) in hs {
            self.a.eps(s, *l);
            self.a.eps(*x, e);
        }
        if dec {
            self.a.decision(s);
        }
        (s, e)
    }
    fn branches(&mut self, r: usize, g: &G) -> Vec<(usize, usize)> {
        match g {
            G::Alt(v) => v.iter().map(|x| self.comp(r, x)).collect(),
            x => vec![self.comp(r, x)],
        }
    }
    fn star(&mut self, r: usize, hs: &[(usize, usize)], greedy: bool) -> (usize, usize) {
        let (s, e) = self.block(r, hs, STAR_BLOCK_START, hs.len() > 1);
        let en = self.a.state(STAR_LOOP_ENTRY, r);
        self.a.states[en].nongreedy = !greedy;
        self.a.decision(en);
        let end = self.a.state(LOOP_END, r);
        let lp = self.a.state(STAR_LOOP_BACK, r);
        self.a.states[end].extra = lp;
        let (x, y) = if greedy { (s, end) } else { (end, s) };
        self.a.eps(en, x);
        self.a.eps(en, y);
        self.a.eps(e, lp);
        self.a.eps(lp, en);
        (en, end)
    }
    fn comp(&mut self, r: usize, g: &G) -> (usize, usize) {
        match g {
            G::Set(s, not) => {
                let s = s.clone();
                let not = *not;
                self.basic(r, |e| {
                    if not {
                        Tr::NotSet(e, s)
                    } else if s.len() == 1 && s[0].1 <= 0xFFFF {
                        if s[0].0 == s[0].1 {
                            Tr::Atom(e, s[0].0)
                        } else {
                            Tr::Range(e, s[0].0, s[0].1)
                        }
                    } else {
                        Tr::Set(e, s)
                    }
                })
            }
            G::Dot => self.basic(r, Tr::Wild),
            G::Seq(v) => {
                let v: Vec<&G> = v.iter().filter(|x| !matches!(x, G::Right)).collect();
                if v.is_empty() {
                    return self.basic(r, Tr::Eps);
                }
                let hs: Vec<_> = v.iter().map(|x| self.comp(r, x)).collect();
                for i in 0..hs.len() - 1 {
                    self.a.eps(hs[i].1, hs[i + 1].0);
                }
                (hs[0].0, hs[hs.len() - 1].1)
            }
            G::Alt(_) => {
                let hs = self.branches(r, g);
                self.block(r, &hs, BLOCK_START, true)
            }
            G::Opt(x, greedy) => {
                let hs = self.branches(r, x);
                let (s, e) = self.block(r, &hs, BLOCK_START, true);
                self.a.states[s].nongreedy = !greedy;
                if *greedy {
                    self.a.eps(s, e)
                } else {
                    self.a.states[s].tr.insert(0, Tr::Eps(e))
                }
                (s, e)
            }
            G::Plus(x, greedy) => {
                let hs = self.branches(r, x);
                let (s, e) = self.block(r, &hs, PLUS_BLOCK_START, hs.len() > 1);
                let lp = self.a.state(PLUS_LOOP_BACK, r);
                self.a.states[lp].nongreedy = !greedy;
                self.a.decision(lp);
                let end = self.a.state(LOOP_END, r);
                self.a.states[end].extra = lp;
                self.a.eps(e, lp);
                let (x, y) = if *greedy { (s, end) } else { (end, s) };
                self.a.eps(lp, x);
                self.a.eps(lp, y);
                (s, end)
            }
            G::Star(x, greedy) => {
                let hs = self.branches(r, x);
                self.star(r, &hs, *greedy)
            }
            G::Ref(n, prec) => {
                if let Some(i) = self.idx.get(n).copied() {
                    let start = self.a.rule_start[i];
                    let prec = *prec;
                    self.basic(r, |e| Tr::Rule { start, rule: i, prec, follow: e })
                } else {
                    assert!(!self.lexer || n == "EOF", "unknown rule {}", n);
                    let t = tok(n);
                    self.basic(r, |e| Tr::Atom(e, t))
                }
            }
            G::Pred(i) => {
                let k = self.npred[r];
                self.npred[r] += 1;
                self.preds.insert((r, k as usize), *i);
                let idx = if self.lexer { *i } else { k };
                self.basic(r, |e| Tr::Pred { to: e, rule: r, idx, ctx: false })
            }
            G::Act(i) => {
                let idx = if self.lexer { self.a.act(LAct::Custom(r, *i)) } else { 0xFFFF };
                self.basic(r, |e| Tr::Action { to: e, rule: r, idx, ctx: false })
            }
            G::Right => unreachable!(),
        }
    }
}

pub struct Gram {
    pub defs: Vec<RuleDef>,
    pub a: Atn,
    pub stops: Vec<usize>,
    pub lr_entry: Vec<Option<usize>>,
    pub preds: HashMap<(usize, usize), u32>,
    pub atn: Arc<ATN>,
    /// token type of each lexer rule by name
    pub types: HashMap<String, i32>,
}
pub fn grammar(text: &str, lexer: bool) -> Gram {
    let (mut defs, nmodes) = parse_grammar(text);
    let n = defs.len();
    let mut c = C { a: Atn { lexer, max_tok: 26, ..Default::default() }, idx: HashMap::new(), lexer, npred: vec![0; n], preds: HashMap::new() };
    if lexer {
        for _ in 0..nmodes {
            let s = c.a.state(TOKEN_START, usize::MAX);
            c.a.modes.push(s);
            c.a.decision(s);
        }
    }
    let mut stops = vec![];
    let mut t = 0;
    let mut types = HashMap::new();
    for (i, d) in defs.iter().enumerate() {
        c.idx.insert(d.name.clone(), i);
        let s = c.a.state(RULE_START, i);
        let e = c.a.state(RULE_STOP, i);
        c.a.rule_start.push(s);
        stops.push(e);
        if lexer {
            if d.fragment {
                c.a.rule_tok.push(0);
            } else {
                t += 1;
                types.insert(d.name.clone(), t);
                c.a.rule_tok.push(t);
            }
        }
    }
    let mut lr_entry = vec![None; n];
    for (i, d) in defs.iter_mut().enumerate() {
        let is_self = |g: &G| matches!(g, G::Ref(x, _) if *x == d.name);
        let lr = !lexer && d.alts.iter().any(|(g, _)| matches!(g, G::Seq(v) if v.iter().find(|x| !matches!(x, G::Right)).map_or(false, is_self)));
        if lr {
            let s = c.a.rule_start[i];
            c.a.states[s].prec_rule = true;
            let na = d.alts.len();
            let (mut prims, mut ops) = (vec![], vec![]);
            for (k, (g, _)) in d.alts.iter().enumerate() {
                let p = (na - k) as u32;
                if let G::Seq(v) = g {
                    let right = matches!(v.first(), Some(G::Right));
                    let mut v: Vec<G> = v.iter().filter(|x| !matches!(x, G::Right)).cloned().collect();
                    let op = is_self(&v[0]);
                    if let Some(l) = v.last_mut() {
                        if is_self(l) {
                            *l = G::Ref(d.name.clone(), if op && !right { p + 1 } else { p });
                        }
                    }
                    if op {
                        v.remove(0);
                        let (pl, pr) = c.basic(i, |e| Tr::Prec(e, p));
                        let (l, r) = c.comp(i, &G::Seq(v));
                        c.a.eps(pr, l);
                        ops.push((pl, r));
                    } else {
                        if prims.is_empty() {
                            v.insert(0, G::Act(0));
                        }
                        let h = c.comp(i, &G::Seq(v));
                        prims.push(h);
                    }
                }
            }
            let (l, e) = if prims.len() == 1 { prims[0] } else { c.block(i, &prims, BLOCK_START, true) };
            let (en, end) = c.star(i, &ops, true);
            lr_entry[i] = Some(en);
            c.a.eps(e, en);
            c.a.eps(c.a.rule_start[i], l);
            c.a.eps(end, stops[i]);
        } else {
            let mut hs = vec![];
            for (g, cmds) in &d.alts {
                let (l, mut e) = c.comp(i, g);
                for (n, v) in cmds {
                    let act = match n.as_str() {
                        "skip" => LAct::Skip,
                        "more" => LAct::More,
                        "type" => LAct::Type(*v),
                        "channel" => LAct::Channel(*v),
                        "mode" => LAct::Mode(*v as u32),
                        "pushMode" => LAct::PushMode(*v as u32),
                        "popMode" => LAct::PopMode,
                        _ => panic!("{}", n),
                    };
                    let idx = c.a.act(act);
                    let x = c.a.state(BASIC, i);
                    c.a.states[e].tr.push(Tr::Action { to: x, rule: i, idx, ctx: false });
                    e = x;
                }
                hs.push((l, e));
            }
            let (l, e) = if hs.len() == 1 { hs[0] } else { c.block(i, &hs, BLOCK_START, true) };
            c.a.eps(c.a.rule_start[i], l);
            c.a.eps(e, stops[i]);
        }
    }
    if lexer {
        for (i, d) in defs.iter().enumerate() {
            if !d.fragment {
                let (m, t) = (c.a.modes[d.mode], c.a.rule_start[i]);
                c.a.eps(m, t);
            }
        }
    }
    let atn = Arc::new(ATNDeserializer::new(None).deserialize(c.a.serialize().chars()));
    Gram { defs, a: c.a, stops, lr_entry, preds: c.preds, atn, types }
}
impl Gram {
    pub fn cache(&self) -> Caches {
        let mut d: Vec<RwLock<DFA>> = vec![];
        for i in 0..self.atn.decision_to_state.len() {
            d.push(DFA::new(self.atn.clone(), self.atn.get_decision_state(i), i as isize).into());
        }
        Caches { dfas: Arc::new(d), cache: Arc::new(PredictionContextCache::new()) }
    }
}
#[derive(Clone)]
pub struct Caches {
    pub dfas: Arc<Vec<RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
}

// ---------------------------------------------------------------- lexer
#[derive(Default)]
pub struct LHooks {
    /// evaluates predicate n at an input index
    pub pred: Option<Box<dyn Fn(u32, isize) -> bool>>,
    pub acts: RefCell<Vec<(u32, isize, String)>>,
}
pub struct LRec {
    pub h: Rc<LHooks>,
}
impl<'i, I: CharStream<TF::From>, TF: TokenFactory<'i, Data = str> + 'i> Actions<'i, BaseLexer<'i, LRec, I, TF>> for LRec {
    fn sempred(_: Option<&<EmptyContextType<'i, TF> as ParserNodeType<'i>>::Type>, _: isize, i: isize, r: &mut BaseLexer<'i, LRec, I, TF>) -> bool {
        let p = r.get_char_index();
        r.h.pred.as_ref().map_or(true, |f| f(i as u32, p))
    }
    fn action(_: Option<&<EmptyContextType<'i, TF> as ParserNodeType<'i>>::Type>, _: isize, i: isize, r: &mut BaseLexer<'i, LRec, I, TF>) {
        let (p, t) = (r.get_char_index(), r.get_text().to_string());
        r.h.acts.borrow_mut().push((i as u32, p, t));
    }
}
impl<'i, I: CharStream<TF::From>, TF: TokenFactory<'i, Data = str> + 'i> LexerRecog<'i, BaseLexer<'i, LRec, I, TF>> for LRec {}
#[derive(Clone, Default)]
pub struct Errs(pub Rc<RefCell<Vec<String>>>);
impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for Errs {
    fn syntax_error(&self, _: &T, _: Option<&<T::TF as TokenFactory<'a>>::Inner>, l: isize, c: isize, msg: &str, _: Option<&ANTLRError>) {
        self.0.borrow_mut().push(format!("{}:{} {}", l, c, msg));
    }
}
#[derive(Default, Debug, PartialEq, Clone)]
pub struct LexOut {
    /// "type@start-stop line:col 'text' #channel"
    pub toks: Vec<String>,
    pub errs: Vec<String>,
    pub acts: Vec<(u32, isize, String)>,
}
pub fn show<T: Token + ?Sized>(t: &T) -> String
where
    T::Data: std::fmt::Display,
{
    let ch = if t.get_channel() != 0 { format!("#{}", t.get_channel()) } else { String::new() };
    format!("{}@{}-{} {}:{} {:?}{}", t.get_token_type(), t.get_start(), t.get_stop(), t.get_line(), t.get_column(), t.get_text().to_string(), ch)
}
pub fn lexer<'i, I: CharStream<TF::From>, TF: TokenFactory<'i, Data = str> + 'i>(g: &Gram, c: &Caches, input: I, tf: &'i TF, h: Rc<LHooks>, e: &Errs) -> BaseLexer<'i, LRec, I, TF> {
    let mut lx = BaseLexer::new_base_lexer(input, LexerATNSimulator::new_lexer_atnsimulator(g.atn.clone(), c.dfas.clone(), c.cache.clone()), LRec { h }, tf);
    lx.remove_error_listeners();
    lx.add_error_listener(Box::new(e.clone()));
    lx
}
pub fn lex_stream<'i, I: CharStream<TF::From>, TF: TokenFactory<'i, Data = str> + 'i>(g: &Gram, c: &Caches, input: I, tf: &'i TF, h: LHooks) -> LexOut {
    let h = Rc::new(h);
    let e = Errs::default();
    let mut lx = lexer(g, c, input, tf, h.clone(), &e);
    let mut o = LexOut::default();
    loop {
        let t = lx.next_token();
        let t: &TF::Inner = t.borrow();
        o.toks.push(show(t));
        assert!(o.toks.len() < 1000, "runaway lexer");
        if t.get_token_type() == TOKEN_EOF {
            break;
        }
    }
    o.errs = e.0.take();
    o.acts = h.acts.take();
    o
}
static CF: CommonTokenFactory = CommonTokenFactory;
pub fn lex(g: &Gram, c: &Caches, s: &str) -> LexOut {
    lex_with(g, c, s, LHooks::default())
}
pub fn lex_with(g: &Gram, c: &Caches, s: &str, h: LHooks) -> LexOut {
    lex_stream(g, c, InputStream::new(s), &CF, h)
}

// ---------------------------------------------------------------- parser
pub struct Toks(pub Vec<(isize, isize, String)>, pub usize, pub isize);
antlr_rust::tid! { Toks }
type NoStream = InputStream<&'static str>;
impl TokenSource<'static> for Toks {
    type TF = CommonTokenFactory;
    fn next_token(&mut self) -> <Self::TF as TokenFactory<'static>>::Tok {
        let i = self.1;
        self.1 += 1;
        match self.0.get(i) {
            None => CF.create(None::<&mut NoStream>, TOKEN_EOF, Some("<EOF>".into()), 0, self.2, self.2 - 1, 1, self.2),
            Some((ty, ch, s)) => {
                let n = s.len() as isize;
                self.2 += n;
                CF.create(None::<&mut NoStream>, *ty, Some(s.clone()), *ch, self.2 - n, self.2 - 1, 1, self.2 - n)
            }
        }
    }
    fn get_line(&self) -> isize {
        1
    }
    fn get_char_position_in_line(&self) -> isize {
        self.2
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "toks".into()
    }
    fn get_token_factory(&self) -> &'static CommonTokenFactory {
        &CF
    }
}
/// one token per character: upper case letters are types 1.., anything else is hidden
pub fn toks(s: &str) -> Toks {
    Toks(s.chars().map(|c| if c.is_ascii_uppercase() { (c as isize - 'A' as isize + 1, 0, c.to_string()) } else { (26, 1, c.to_string()) }).collect(), 0, 0)
}
pub trait VL<'i>: ParseTreeListener<'i, CT> {
    fn enter_r(&mut self, _: &Node<'i>) {}
    fn exit_r(&mut self, _: &Node<'i>) {}
}
antlr_rust::coerce_from! { 'i : VL<'i> }
pub trait VC<'i>: for<'x> Listenable<dyn VL<'i> + 'x> + ParserRuleContext<'i, TF = CommonTokenFactory, Ctx = CT> {}
antlr_rust::coerce_from! { 'i : VC<'i> }
impl<'i> VC<'i> for TerminalNode<'i, CT> {}
impl<'i> VC<'i> for ErrorNode<'i, CT> {}
antlr_rust::tid! { impl<'i> TidAble<'i> for dyn VC<'i> + 'i }
antlr_rust::tid! { impl<'i> TidAble<'i> for dyn VL<'i> + 'i }
pub struct CT;
antlr_rust::tid! {CT}
impl<'i> ParserNodeType<'i> for CT {
    type TF = CommonTokenFactory;
    type Type = dyn VC<'i> + 'i;
}
pub struct NX<'i>(pub usize, std::marker::PhantomData<&'i str>);
antlr_rust::tid! { NX<'a> }
impl<'i> CustomRuleContext<'i> for NX<'i> {
    type TF = CommonTokenFactory;
    type Ctx = CT;
    fn get_rule_index(&self) -> usize {
        self.0
    }
}
pub type Node<'i> = BaseParserRuleContext<'i, NX<'i>>;
pub type Any = dyn VC<'static> + 'static;
impl<'i> VC<'i> for Node<'i> {}
impl<'i, 'a> Listenable<dyn VL<'i> + 'a> for Node<'i> {
    fn enter(&self, l: &mut (dyn VL<'i> + 'a)) {
        l.enter_every_rule(self);
        l.enter_r(self);
    }
    fn exit(&self, l: &mut (dyn VL<'i> + 'a)) {
        l.exit_r(self);
        l.exit_every_rule(self);
    }
}
static NAMES: [&str; 10] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9"];
static LITS: [Option<&str>; 27] = [
    None, Some("'A'"), Some("'B'"), Some("'C'"), Some("'D'"), Some("'E'"), Some("'F'"), Some("'G'"), Some("'H'"), Some("'I'"), Some("'J'"), Some("'K'"),
    Some("'L'"), Some("'M'"), Some("'N'"), Some("'O'"), Some("'P'"), Some("'Q'"), Some("'R'"), Some("'S'"), Some("'T'"), Some("'U'"), Some("'V'"), Some("'W'"),
    Some("'X'"), Some("'Y'"), Some("'Z'"),
];
antlr_rust::lazy_static! { static ref VOC: Box<dyn Vocabulary> = Box::new(VocabularyImpl::new(LITS.iter(), [].iter(), None)); }
pub struct PX<'i> {
    pub preds: Rc<HashMap<(usize, usize), u32>>,
    pub truth: Rc<dyn Fn(u32) -> bool>,
    ph: std::marker::PhantomData<&'i str>,
}
antlr_rust::tid! { PX<'a> }
impl<'i> TokenAware<'i> for PX<'i> {
    type TF = CommonTokenFactory;
}
pub type BP<I> = BaseParser<'static, PX<'static>, I, CT, dyn VL<'static> + 'static>;
impl<I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>> ParserRecog<'static, BP<I>> for PX<'static> {}
impl<I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>> Actions<'static, BP<I>> for PX<'static> {
    fn get_grammar_file_name(&self) -> &str {
        "K.g4"
    }
    fn get_rule_names(&self) -> &[&str] {
        &NAMES
    }
    fn get_vocabulary(&self) -> &dyn Vocabulary {
        &**VOC
    }
    fn sempred(_: Option<&Any>, rule: isize, idx: isize, r: &mut BP<I>) -> bool {
        let n = r.preds[&(rule as usize, idx as usize)];
        (r.truth.clone())(n)
    }
}
#[derive(Clone, Default)]
pub struct Diags(pub Rc<RefCell<Vec<String>>>);
impl<'a, T: Parser<'a>> ErrorListener<'a, T> for Diags {
    fn report_ambiguity(&self, _: &T, d: &DFA, a: isize, b: isize, exact: bool, alts: &bit_set::BitSet, _: &antlr_rust::atn_config_set::ATNConfigSet) {
        self.0.borrow_mut().push(format!("ambig d{} {}-{} {:?}{}", d.decision, a, b, alts, if exact { " exact" } else { "" }));
    }
    fn report_attempting_full_context(&self, _: &T, d: &DFA, a: isize, b: isize, alts: &bit_set::BitSet, _: &antlr_rust::atn_config_set::ATNConfigSet) {
        self.0.borrow_mut().push(format!("full d{} {}-{} {:?}", d.decision, a, b, alts));
    }
    fn report_context_sensitivity(&self, _: &T, d: &DFA, a: isize, b: isize, alt: isize, _: &antlr_rust::atn_config_set::ATNConfigSet) {
        self.0.borrow_mut().push(format!("ctx d{} {}-{} {}", d.decision, a, b, alt));
    }
}
#[derive(Clone, Default)]
pub struct Evs(pub Rc<RefCell<Vec<String>>>, pub &'static str);
impl ParseTreeListener<'static, CT> for Evs {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, CT>) {
        self.0.borrow_mut().push(format!("{}{}", self.1, n.symbol.get_text()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, CT>) {
        self.0.borrow_mut().push(format!("{}!{}", self.1, n.symbol.get_text()));
    }
}
impl VL<'static> for Evs {
    fn enter_r(&mut self, c: &Node<'static>) {
        self.0.borrow_mut().push(format!("{}<r{}", self.1, c.get_rule_index()));
    }
    fn exit_r(&mut self, c: &Node<'static>) {
        self.0.borrow_mut().push(format!("{}>r{}", self.1, c.get_rule_index()));
    }
}
pub struct PO {
    pub mode: PredictionMode,
    pub bail: bool,
    pub trees: bool,
    pub listeners: Vec<Evs>,
    pub truth: Rc<dyn Fn(u32) -> bool>,
}
impl Default for PO {
    fn default() -> Self {
        PO { mode: PredictionMode::LL, bail: false, trees: true, listeners: vec![], truth: Rc::new(|_| true) }
    }
}
pub struct ParseOut {
    pub root: Option<Rc<Node<'static>>>,
    pub tree: String,
    pub errs: Vec<String>,
    pub diags: Vec<String>,
    pub failed: bool,
    pub index: isize,
}
pub struct Ip<'g, I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>, H: ErrorStrategy<'static, BP<I>>> {
    pub base: BP<I>,
    pub interp: Arc<ParserATNSimulator>,
    pub eh: H,
    pub g: &'g Gram,
    pub dec: HashMap<usize, usize>,
    pub truth: Rc<dyn Fn(u32) -> bool>,
    pub steps: usize,
}
type RE<T> = Result<T, ANTLRError>;
impl<'g, I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>, H: ErrorStrategy<'static, BP<I>>> Ip<'g, I, H> {
    fn node(&self, parent: Option<Rc<Any>>, st: isize, r: usize) -> Rc<Node<'static>> {
        Rc::new(BaseParserRuleContext::new_parser_ctx(parent, st, NX(r, Default::default())))
    }
    pub fn rule(&mut self, r: usize, prec: isize) -> RE<Rc<Node<'static>>> {
        let g = self.g;
        let lr = g.lr_entry[r];
        let start = g.a.rule_start[r];
        let parent = self.base.ctx.take();
        let pst = self.base.get_state();
        let mut local = self.node(parent.clone(), pst, r);
        match lr {
            None => self.base.enter_rule(local.clone(), start as isize, r),
            Some(_) => self.base.enter_recursion_rule(local.clone(), start as isize, r, prec),
        }
        let res: RE<()> = (|| {
            self.base.enter_outer_alt(None, 1);
            let mut s = start;
            while s != g.stops[r] {
                self.steps += 1;
                assert!(self.steps < 100_000, "runaway parser");
                let st = &g.a.states[s];
                let mut alt = 1;
                if st.tr.len() > 1 {
                    let first = lr == Some(s);
                    if first {
                        let t = self.base.input.lt(-1).cloned();
                        self.base.ctx.as_ref().unwrap().set_stop(t);
                    }
                    self.base.set_state(s as isize);
                    self.eh.sync(&mut self.base)?;
                    alt = self.interp.adaptive_predict(self.dec[&s] as isize, &mut self.base)?;
                    if first && alt == 1 {
                        self.base.trigger_exit_rule_event();
                        local = self.node(parent.clone(), pst, r);
                        self.base.push_new_recursion_context(local.clone(), start as isize, r);
                    }
                }
                let t = &st.tr[alt as usize - 1];
                self.base.set_state(s as isize);
                s = match t {
                    Tr::Eps(x) => *x,
                    Tr::Action { to, .. } => *to,
                    Tr::Atom(x, t) => {
                        self.base.match_token(*t as isize, &mut self.eh)?;
                        *x
                    }
                    Tr::Wild(x) => {
                        self.base.match_wildcard(&mut self.eh)?;
                        *x
                    }
                    Tr::Set(x, rs) | Tr::NotSet(x, rs) => {
                        let la = self.base.input.la(1);
                        let hit = in_ranges(rs, la as i32);
                        if if matches!(t, Tr::Set(..)) { hit } else { !hit && la > 0 } {
                            if la == TOKEN_EOF {
                                self.base.matched_eof = true;
                            }
                            self.eh.report_match(&mut self.base);
                            self.base.consume(&mut self.eh);
                        } else {
                            self.eh.recover_inline(&mut self.base)?;
                        }
                        *x
                    }
                    Tr::Range(x, ..) => *x,
                    Tr::Rule { rule, prec, follow, .. } => {
                        self.rule(*rule, *prec as isize)?;
                        *follow
                    }
                    Tr::Pred { to, rule, idx, .. } => {
                        if !(self.truth)(g.preds[&(*rule, *idx as usize)]) {
                            return Err(FailedPredicateError::new(&mut self.base, Some(format!("p{}", idx)), None).into());
                        }
                        *to
                    }
                    Tr::Prec(x, p) => {
                        if !self.base.precpred(None, *p as isize) {
                            return Err(FailedPredicateError::new(&mut self.base, Some(format!("precpred {}", p)), None).into());
                        }
                        *x
                    }
                };
            }
            Ok(())
        })();
        match res {
            Ok(_) => {}
            Err(e @ ANTLRError::FallThrough(_)) => return Err(e),
            Err(ref e) => {
                self.eh.report_error(&mut self.base, e);
                self.eh.recover(&mut self.base, e)?;
            }
        }
        match lr {
            None => self.base.exit_rule(),
            Some(_) => self.base.unroll_recursion_context(parent),
        }
        Ok(local)
    }
}
pub fn parse_stream<I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>, H: ErrorStrategy<'static, BP<I>>>(g: &Gram, c: &Caches, input: I, eh: H, o: &PO) -> ParseOut {
    let interp = Arc::new(ParserATNSimulator::new(g.atn.clone(), c.dfas.clone(), c.cache.clone()));
    interp.set_prediction_mode(o.mode);
    let ext = PX { preds: Rc::new(g.preds.clone()), truth: o.truth.clone(), ph: Default::default() };
    let mut base: BP<I> = BaseParser::new_base_parser(input, interp.clone(), ext);
    base.build_parse_trees = o.trees;
    base.remove_error_listeners();
    let (e, d) = (Errs::default(), Diags::default());
    base.add_error_listener(Box::new(e.clone()));
    base.add_error_listener(Box::new(d.clone()));
    for l in &o.listeners {
        base.add_parse_listener(Box::new(l.clone()));
    }
    let dec = g.a.decisions.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    let mut p = Ip { base, interp, eh, g, dec, truth: o.truth.clone(), steps: 0 };
    let r = p.rule(0, 0).ok();
    let tree = match &r {
        Some(n) if o.trees => n.to_string_tree(&p.base),
        _ => String::new(),
    };
    let out = ParseOut { failed: r.is_none(), root: r, tree, errs: e.0.take(), diags: d.0.take(), index: p.base.input.index() };
    out
}
pub fn parse_o(g: &Gram, c: &Caches, s: &str, o: PO) -> ParseOut {
    let st = CommonTokenStream::new(toks(s));
    if o.bail {
        parse_stream(g, c, st, BailErrorStrategy::new(), &o)
    } else {
        parse_stream(g, c, st, DefaultErrorStrategy::new(), &o)
    }
}
pub fn parse(g: &Gram, c: &Caches, s: &str) -> ParseOut {
    parse_o(g, c, s, PO::default())
}
