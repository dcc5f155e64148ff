//! Drives the lexer of the crate under test on a compiled grammar.
use crate::atnc;
use crate::engine::{point, Point, BUDGET};
use crate::lexg::*;
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::char_stream::CharStream;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::errors::ANTLRError;
use antlr_rust::int_stream::IntStream;
use antlr_rust::lexer::{BaseLexer, Lexer, LexerRecog};
use antlr_rust::lexer_atn_simulator::LexerATNSimulator;
use antlr_rust::recognizer::{Actions, Recognizer};
use antlr_rust::rule_context::EmptyContextType;
use antlr_rust::parser::ParserNodeType;
use antlr_rust::token::Token;
use antlr_rust::token_factory::TokenFactory;
use antlr_rust::TokenSource;
use antlr_rust::{PredictionContextCache, RwLock};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

/// deserialized ATN + shared prediction caches, as a generated recognizer holds them in statics
#[derive(Clone)]
pub struct Shared {
    pub atn: Arc<ATN>,
    pub dfas: Arc<Vec<RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
}
impl Shared {
    pub fn new(a: &atnc::Atn) -> Shared {
        Shared::from_str(&a.serialize())
    }
    pub fn from_str(s: &str) -> Shared {
        let atn = Arc::new(ATNDeserializer::new(None).deserialize(s.chars()));
        Shared::from_atn(atn)
    }
    pub fn from_atn(atn: Arc<ATN>) -> Shared {
        let mut d: Vec<RwLock<DFA>> = vec![];
        for i in 0..atn.decision_to_state.len() {
            d.push(DFA::new(atn.clone(), atn.get_decision_state(i), i as isize).into());
        }
        Shared { atn, dfas: Arc::new(d), cache: Arc::new(PredictionContextCache::new()) }
    }
    /// same automaton, cold caches
    pub fn fresh(&self) -> Shared {
        Shared::from_atn(self.atn.clone())
    }
}

/// counts lookahead calls so that a non-terminating tokenizer is caught deterministically
pub struct Counting<S> {
    pub inner: S,
    pub left: Cell<u64>,
    /// outstanding markers (stack discipline is checked by the users that care)
    pub marks: Cell<i64>,
    /// last position looked at
    pub far: Rc<Cell<isize>>,
}
impl<S> Counting<S> {
    pub fn new(inner: S, left: u64) -> Self {
        Counting { inner, left: Cell::new(left), marks: Cell::new(0), far: Default::default() }
    }
    fn tick(&self) {
        let l = self.left.get();
        if l == 0 {
            panic!("{} character stream lookahead budget exhausted", BUDGET);
        }
        self.left.set(l - 1);
        point(Point::Input);
    }
}
impl<S: IntStream> IntStream for Counting<S> {
    fn consume(&mut self) {
        self.inner.consume()
    }
    fn la(&mut self, i: isize) -> isize {
        self.tick();
        self.far.set(self.far.get().max(self.inner.index() + i - 1));
        self.inner.la(i)
    }
    fn mark(&mut self) -> isize {
        self.inner.mark()
    }
    fn release(&mut self, m: isize) {
        self.inner.release(m)
    }
    fn index(&self) -> isize {
        self.inner.index()
    }
    fn seek(&mut self, i: isize) {
        self.inner.seek(i)
    }
    fn size(&self) -> isize {
        self.inner.size()
    }
    fn get_source_name(&self) -> String {
        self.inner.get_source_name()
    }
}
impl<D, S: CharStream<D>> CharStream<D> for Counting<S> {
    fn get_text(&self, a: isize, b: isize) -> D {
        self.inner.get_text(a, b)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct OTok {
    /// -1 until a stream numbers the token
    pub index: isize,
    pub ty: i32,
    pub channel: i32,
    pub start: isize,
    pub stop: isize,
    pub line: isize,
    pub col: isize,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct OErr {
    pub line: isize,
    pub col: isize,
    pub msg: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct OAct {
    pub rule: usize,
    pub idx: u32,
    pub pos: isize,
    pub tok_start: isize,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct LexRun {
    pub toks: Vec<OTok>,
    pub errs: Vec<OErr>,
    pub acts: Vec<OAct>,
    pub emits: usize,
    /// tokens handed out after the EOF token when asked again
    pub after: Vec<OTok>,
}

/// The "generated" part of the lexer: actions and predicates
pub struct LRec {
    pub g: Rc<LGram>,
    /// raw stream index -> symbol index
    pub map: Rc<Vec<usize>>,
    pub acts: Rc<RefCell<Vec<OAct>>>,
    pub emits: Cell<usize>,
}

impl<'input, Input, TF> Actions<'input, BaseLexer<'input, LRec, Input, TF>> for LRec
where
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input, Data = str> + 'input,
{
    fn sempred(
        _c: Option<&<EmptyContextType<'input, TF> as ParserNodeType<'input>>::Type>,
        _rule: isize,
        idx: isize,
        recog: &mut BaseLexer<'input, LRec, Input, TF>,
    ) -> bool {
        let raw = recog.get_char_index();
        let pos = recog.map.get(raw as usize).copied().unwrap_or(usize::MAX / 2);
        recog.g.pred(idx as u32, pos)
    }
    fn action(
        _c: Option<&<EmptyContextType<'input, TF> as ParserNodeType<'input>>::Type>,
        rule: isize,
        idx: isize,
        recog: &mut BaseLexer<'input, LRec, Input, TF>,
    ) {
        point(Point::Callback);
        let text = recog.get_text().to_string();
        let a = OAct {
            rule: rule as usize,
            idx: idx as u32,
            pos: recog.get_char_index(),
            tok_start: recog.token_start_char_index,
            text,
        };
        recog.acts.borrow_mut().push(a);
        let op = recog.g.act_ops.get(idx as usize).cloned().unwrap_or(AOp::Nop);
        match op {
            AOp::Nop => {}
            AOp::SetText(t) => recog.set_text(t.to_string()),
            AOp::SetType(t) => recog.set_type(t as isize),
            AOp::SetChannel(c) => recog.set_channel(c as isize),
            AOp::Skip => recog.skip(),
            AOp::More => recog.more(),
            AOp::Push(m) => recog.push_mode(m as usize),
            AOp::Pop => {
                let _ = recog.pop_mode();
            }
            AOp::Mode(m) => recog.set_mode(m as usize),
            AOp::Token(t) => {
                let f = recog.get_token_factory();
                let tok = f.create(
                    None::<&mut Input>,
                    t as isize,
                    Some("override".to_string()),
                    0,
                    recog.token_start_char_index,
                    recog.get_char_index() - 1,
                    recog.token_start_line,
                    recog.token_start_column,
                );
                recog.token = Some(tok);
            }
        }
    }
}
impl<'input, Input, TF> LexerRecog<'input, BaseLexer<'input, LRec, Input, TF>> for LRec
where
    Input: CharStream<TF::From>,
    TF: TokenFactory<'input, Data = str> + 'input,
{
    fn before_emit(lx: &mut BaseLexer<'input, LRec, Input, TF>) {
        lx.emits.set(lx.emits.get() + 1);
        if lx.g.remap != 0 && lx.token_type == lx.g.remap as isize {
            lx.token_type += 100;
        }
    }
}

pub struct LErr(pub Rc<RefCell<Vec<OErr>>>);
impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for LErr {
    fn syntax_error(
        &self,
        _r: &T,
        _o: Option<&<T::TF as TokenFactory<'a>>::Inner>,
        line: isize,
        column: isize,
        msg: &str,
        _e: Option<&ANTLRError>,
    ) {
        point(Point::Callback);
        self.0.borrow_mut().push(OErr { line, col: column, msg: msg.to_string() });
    }
}

pub fn otok<T: Token<Data = str> + ?Sized>(t: &T) -> OTok {
    OTok {
        index: t.get_token_index(),
        ty: t.get_token_type() as i32,
        channel: t.get_channel() as i32,
        start: t.get_start(),
        stop: t.get_stop(),
        line: t.get_line(),
        col: t.get_column(),
        text: t.get_text().to_string(),
    }
}

pub fn new_lexer<'i, Input, TF>(
    sh: &Shared,
    g: &Rc<LGram>,
    map: Rc<Vec<usize>>,
    input: Input,
    tf: &'i TF,
    errs: Rc<RefCell<Vec<OErr>>>,
    acts: Rc<RefCell<Vec<OAct>>>,
) -> BaseLexer<'i, LRec, Input, TF>
where
    Input: CharStream<TF::From>,
    TF: TokenFactory<'i, Data = str> + 'i,
{
    let mut lx = BaseLexer::new_base_lexer(
        input,
        LexerATNSimulator::new_lexer_atnsimulator(sh.atn.clone(), sh.dfas.clone(), sh.cache.clone()),
        LRec { g: g.clone(), map, acts, emits: Cell::new(0) },
        tf,
    );
    if !crate::engine::console() {
        lx.remove_error_listeners();
    }
    lx.add_error_listener(Box::new(LErr(errs)));
    lx
}

/// Tokenize everything. `limit` bounds the number of tokens.
pub fn run_lexer<'i, Input, TF>(
    sh: &Shared,
    g: &Rc<LGram>,
    map: Rc<Vec<usize>>,
    input: Input,
    tf: &'i TF,
    limit: usize,
) -> LexRun
where
    Input: CharStream<TF::From>,
    TF: TokenFactory<'i, Data = str> + 'i,
{
    let errs = Rc::new(RefCell::new(vec![]));
    let acts = Rc::new(RefCell::new(vec![]));
    let mut out = LexRun::default();
    {
        let n = input.size() as u64;
        let mut lx = new_lexer(sh, g, map, Counting::new(input, 4000 + n * n * 20 + n * 400), tf, errs.clone(), acts.clone());
        loop {
            point(Point::Between);
            let t = lx.next_token();
            let t = otok::<TF::Inner>(t.borrow());
            let ty = t.ty;
            out.toks.push(t);
            if ty == -1 {
                break;
            }
            if out.toks.len() > limit {
                panic!("{} more than {} tokens without reaching EOF", BUDGET, limit);
            }
        }
        out.emits = lx.emits.get();
        for _ in 0..2 {
            let t = lx.next_token();
            out.after.push(otok::<TF::Inner>(t.borrow()));
        }
    }
    out.errs = errs.take();
    out.acts = acts.take();
    out
}

/// symbol index for each raw index of a string (usize::MAX inside a character), plus the end
pub fn byte_map(s: &str) -> Vec<usize> {
    let mut m = vec![usize::MAX; s.len() + 1];
    let mut k = 0;
    for (i, _) in s.char_indices() {
        m[i] = k;
        k += 1;
    }
    m[s.len()] = k;
    m
}
pub fn to_string(v: &[i32]) -> String {
    v.iter().map(|c| char::from_u32(*c as u32).expect("valid scalar")).collect()
}

/// Expected run over a stream whose raw index of symbol k is `raw(k)`
pub fn expect(out: &LexOut, input: &[i32], raw: &dyn Fn(usize) -> isize) -> LexRun {
    let txt = |a: usize, b: usize| -> String {
        input[a.min(input.len())..b.min(input.len())]
            .iter()
            .map(|c| char::from_u32(*c as u32).unwrap_or('\u{FFFD}'))
            .collect()
    };
    LexRun {
        toks: out
            .toks
            .iter()
            .map(|t| OTok {
                index: -1,
                ty: t.ty,
                channel: t.channel,
                start: raw(t.start as usize),
                stop: raw((t.stop + 1) as usize) - 1,
                line: t.line as isize,
                col: t.col as isize,
                text: if t.ty == -1 {
                    "<EOF>".into()
                } else if let Some(t) = t.text {
                    t.into()
                } else if t.ty == -1 || t.start as usize >= input.len() {
                    "<EOF>".into()
                } else {
                    txt(t.start as usize, (t.stop + 1) as usize)
                },
            })
            .collect(),
        errs: out
            .errs
            .iter()
            .map(|e| OErr {
                line: e.line as isize,
                col: e.col as isize,
                msg: format!("token recognition error at: '{}'", txt(e.from, e.to_incl + 1)),
            })
            .collect(),
        acts: out
            .acts
            .iter()
            .map(|a| OAct {
                rule: a.rule,
                idx: a.idx,
                pos: raw(a.pos),
                tok_start: raw(a.tok_start),
                text: a.text.map(|t| t.to_string()).unwrap_or_else(|| txt(a.tok_start, a.pos)),
            })
            .collect(),
        after: vec![],
        emits: out.emits,
    }
}

/// first difference between two runs, for messages
pub fn diff(a: &LexRun, b: &LexRun) -> Option<String> {
    if a.toks != b.toks {
        for i in 0..a.toks.len().max(b.toks.len()) {
            if a.toks.get(i) != b.toks.get(i) {
                return Some(format!("token #{}: got {:?}, expected {:?}", i, a.toks.get(i), b.toks.get(i)));
            }
        }
    }
    if a.errs != b.errs {
        return Some(format!("errors: got {:?}, expected {:?}", a.errs, b.errs));
    }
    if a.acts != b.acts {
        return Some(format!("actions: got {:?}, expected {:?}", a.acts, b.acts));
    }
    if a.emits != b.emits {
        return Some(format!("before_emit calls: got {}, expected {}", a.emits, b.emits));
    }
    None
}
