//! Drives the parser runtime of the crate under test with the call sequences generated parsers contain.
use crate::engine::{debug, point, Point, BUDGET};
use crate::lexdrv::Shared;
use crate::parg::*;
use antlr_rust::atn::INVALID_ALT;
use antlr_rust::atn_config_set::ATNConfigSet;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::{DiagnosticErrorListener, ErrorListener};
use antlr_rust::error_strategy::{BailErrorStrategy, DefaultErrorStrategy, ErrorStrategy};
use antlr_rust::errors::*;
use antlr_rust::int_stream::IntStream;
use antlr_rust::parser::{BaseParser, Parser, ParserNodeType, ParserRecog};
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::parser_rule_context::{BaseParserRuleContext, ParserRuleContext};
use antlr_rust::recognizer::Actions;
use antlr_rust::rule_context::{CustomRuleContext, RuleContext};
use antlr_rust::token::{Token, TOKEN_EOF};
use antlr_rust::token_factory::{CommonTokenFactory, TokenAware, TokenFactory};
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::tree::*;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::{PredictionMode, TidAble, TidExt, TokenSource};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub static RULE_NAMES: [&str; 12] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11"];
// tokens A.. : some have a literal, some only a symbolic name, one has neither
pub static LITERALS: [Option<&'static str>; 10] =
    [None, Some("'a'"), Some("'b'"), None, None, Some("'\\n'"), None, Some("'('"), Some("')'"), None];
pub static SYMBOLS: [Option<&'static str>; 10] =
    [None, None, Some("BEE"), Some("CC"), Some("DDD"), None, None, Some("LP"), None, Some("NN")];
antlr_rust::lazy_static! {
    static ref VOCAB: Box<dyn Vocabulary> = Box::new(VocabularyImpl::new(LITERALS.iter(), SYMBOLS.iter(), None));
}
/// what a token type is called in messages: literal, else symbolic name, else its number
pub fn display_name(t: i32) -> String {
    if t == -1 {
        return "<EOF>".into();
    }
    let i = t as usize;
    if let Some(Some(l)) = LITERALS.get(i) {
        return l.to_string();
    }
    if let Some(Some(l)) = SYMBOLS.get(i) {
        return l.to_string();
    }
    t.to_string()
}

#[derive(Clone, Debug, PartialEq)]
pub struct TokSpec {
    pub ty: i32,
    pub channel: isize,
    pub text: String,
}

/// token source over a prepared list
pub struct Toks {
    pub toks: Vec<TokSpec>,
    pub i: usize,
    pub off: isize,
    pub line: isize,
    pub col: isize,
    pub eofs: Rc<Cell<usize>>,
    pub eof_channel: isize,
}
impl Toks {
    pub fn new(toks: Vec<TokSpec>) -> Toks {
        Toks { toks, i: 0, off: 0, line: 1, col: 0, eofs: Rc::new(Cell::new(0)), eof_channel: 0 }
    }
}
antlr_rust::tid! { Toks }
static FACTORY: CommonTokenFactory = CommonTokenFactory;
impl TokenSource<'static> for Toks {
    type TF = CommonTokenFactory;
    fn next_token(&mut self) -> <Self::TF as TokenFactory<'static>>::Tok {
        type NoStream = antlr_rust::InputStream<&'static str>;
        if self.i >= self.toks.len() {
            self.eofs.set(self.eofs.get() + 1);
            return FACTORY.create(None::<&mut NoStream>, TOKEN_EOF, Some("<EOF>".into()), self.eof_channel, self.off, self.off - 1, self.line, self.col);
        }
        let t = &self.toks[self.i];
        self.i += 1;
        let n = t.text.chars().count() as isize;
        let r = FACTORY.create(None::<&mut NoStream>, t.ty as isize, Some(t.text.clone()), t.channel, self.off, self.off + n - 1, self.line, self.col);
        self.off += n;
        for c in t.text.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        r
    }
    fn get_line(&self) -> isize {
        self.line
    }
    fn get_char_position_in_line(&self) -> isize {
        self.col
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "toks".into()
    }
    fn get_token_factory(&self) -> &'static CommonTokenFactory {
        &FACTORY
    }
}

/// stream wrapper: step budget, marker discipline
pub struct Cnt<S> {
    pub inner: S,
    pub left: u64,
    pub marks: Vec<isize>,
    pub info: Rc<StreamInfo>,
}
#[derive(Default)]
pub struct StreamInfo {
    pub open_marks: Cell<i64>,
    pub bad_release: Cell<bool>,
    /// last token looked at since it was reset
    pub far: Cell<isize>,
    pub index: Cell<isize>,
    pub steps: Cell<u64>,
}
antlr_rust::tid! { impl<'a, S> TidAble<'a> for Cnt<S> where S: TokenStream<'a> + 'a }
impl<S> Cnt<S> {
    fn tick(&mut self) {
        self.info.steps.set(self.info.steps.get() + 1);
        if self.left == 0 {
            panic!("{} token stream accesses", BUDGET);
        }
        self.left -= 1;
        point(Point::Input);
    }
}
pub trait HasInfo {
    fn inner_info(&self) -> &Rc<StreamInfo>;
}
impl<S> HasInfo for Cnt<S> {
    fn inner_info(&self) -> &Rc<StreamInfo> {
        &self.info
    }
}
impl<S: IntStream> IntStream for Cnt<S> {
    fn consume(&mut self) {
        self.tick();
        self.inner.consume();
        self.info.index.set(self.inner.index());
    }
    fn la(&mut self, i: isize) -> isize {
        self.tick();
        self.info.far.set(self.info.far.get().max(self.inner.index() + i - 1));
        self.inner.la(i)
    }
    fn mark(&mut self) -> isize {
        self.tick();
        let m = self.inner.mark();
        self.marks.push(m);
        self.info.open_marks.set(self.marks.len() as i64);
        m
    }
    fn release(&mut self, marker: isize) {
        self.tick();
        if self.marks.pop() != Some(marker) {
            self.info.bad_release.set(true);
        }
        self.info.open_marks.set(self.marks.len() as i64);
        self.inner.release(marker)
    }
    fn index(&self) -> isize {
        self.inner.index()
    }
    fn seek(&mut self, index: isize) {
        self.tick();
        self.inner.seek(index);
        self.info.index.set(self.inner.index());
    }
    fn size(&self) -> isize {
        self.inner.size()
    }
    fn get_source_name(&self) -> String {
        self.inner.get_source_name()
    }
}
impl<'i, S: TokenStream<'i>> TokenStream<'i> for Cnt<S> {
    type TF = S::TF;
    fn lt(&mut self, k: isize) -> Option<&<Self::TF as TokenFactory<'i>>::Tok> {
        self.tick();
        self.info.far.set(self.info.far.get().max(self.inner.index() + k - 1));
        self.inner.lt(k)
    }
    fn get(&self, index: isize) -> &<Self::TF as TokenFactory<'i>>::Tok {
        self.inner.get(index)
    }
    fn get_token_source(&self) -> &dyn TokenSource<'i, TF = Self::TF> {
        self.inner.get_token_source()
    }
    fn get_text_from_interval(&self, start: isize, stop: isize) -> String {
        self.inner.get_text_from_interval(start, stop)
    }
}

// ------------------------------------------------------------------ node types

pub trait VListener<'input>: ParseTreeListener<'input, CtxType> {
    fn enter_r(&mut self, _ctx: &Node<'input>) {}
    fn exit_r(&mut self, _ctx: &Node<'input>) {}
}
antlr_rust::coerce_from! { 'input : VListener<'input> }
pub trait VVisitor<'input>: ParseTreeVisitor<'input, CtxType> {
    fn visit_r(&mut self, _ctx: &Node<'input>) {}
}

pub trait VCtx<'input>:
    for<'x> Listenable<dyn VListener<'input> + 'x>
    + for<'x> Visitable<dyn VVisitor<'input> + 'x>
    + ParserRuleContext<'input, TF = CommonTokenFactory, Ctx = CtxType>
{
}
antlr_rust::coerce_from! { 'input : VCtx<'input> }
impl<'input, 'x, T> VisitableDyn<T> for dyn VCtx<'input> + 'input
where
    T: VVisitor<'input> + 'x,
{
    fn accept_dyn(&self, visitor: &mut T) {
        self.accept(visitor as &mut (dyn VVisitor<'input> + 'x))
    }
}
impl<'input> VCtx<'input> for TerminalNode<'input, CtxType> {}
impl<'input> VCtx<'input> for ErrorNode<'input, CtxType> {}
antlr_rust::tid! { impl<'input> TidAble<'input> for dyn VCtx<'input> + 'input }
antlr_rust::tid! { impl<'input> TidAble<'input> for dyn VListener<'input> + 'input }
pub struct CtxType;
antlr_rust::tid! {CtxType}
impl<'input> ParserNodeType<'input> for CtxType {
    type TF = CommonTokenFactory;
    type Type = dyn VCtx<'input> + 'input;
}

pub struct NodeExt<'input> {
    pub rule: usize,
    /// alternative for labelled rules, 0 otherwise
    pub label: usize,
    pub id: usize,
    /// context of a labelled rule before its alternative is known: it sends no events (as generated)
    pub base: bool,
    ph: std::marker::PhantomData<&'input str>,
}
antlr_rust::tid! { NodeExt<'a> }
impl<'input> CustomRuleContext<'input> for NodeExt<'input> {
    type TF = CommonTokenFactory;
    type Ctx = CtxType;
    fn get_rule_index(&self) -> usize {
        self.rule
    }
}
pub type Node<'input> = BaseParserRuleContext<'input, NodeExt<'input>>;
pub type AnyNode = dyn VCtx<'static> + 'static;
impl<'input> VCtx<'input> for Node<'input> {}
impl<'input, 'a> Listenable<dyn VListener<'input> + 'a> for Node<'input> {
    fn enter(&self, l: &mut (dyn VListener<'input> + 'a)) {
        if self.base {
            return;
        }
        l.enter_every_rule(self);
        l.enter_r(self);
    }
    fn exit(&self, l: &mut (dyn VListener<'input> + 'a)) {
        if self.base {
            return;
        }
        l.exit_r(self);
        l.exit_every_rule(self);
    }
}
impl<'input, 'a> Visitable<dyn VVisitor<'input> + 'a> for Node<'input> {
    fn accept(&self, v: &mut (dyn VVisitor<'input> + 'a)) {
        v.visit_r(self)
    }
}

// ------------------------------------------------------------------ recording

#[derive(Clone, Debug, PartialEq)]
pub struct ErrRec {
    pub line: isize,
    pub col: isize,
    pub msg: String,
    /// token index of the offending symbol
    pub tok: isize,
    pub kind: &'static str,
    /// stream index when reported
    pub at: isize,
    pub state: isize,
    /// invoking states of the active rule contexts, outermost first
    pub stack: Vec<isize>,
    /// first token of the failed prediction (no-alt only)
    pub start: isize,
    /// token index carried by the error value itself
    pub etok: isize,
    pub estate: isize,
    pub rule: usize,
    pub npreds: usize,
    /// where the last prediction-free position was noted (what `sync` remembers for messages)
    pub saved: Option<(usize, Vec<isize>)>,
    /// decision whose adaptive prediction failed last (no-alt only)
    pub dec: Option<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Diag {
    Full { dec: isize, seq: usize, start: isize, stop: isize, alts: Vec<usize> },
    Ctx { dec: isize, seq: usize, start: isize, stop: isize, alt: isize },
    Ambig { dec: isize, seq: usize, start: isize, stop: isize, exact: bool, alts: Vec<usize> },
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Enter(usize, usize),
    Exit(usize, usize),
    Term(isize),
    Err(isize),
}
#[derive(Default)]
pub struct Log {
    pub errs: RefCell<Vec<ErrRec>>,
    pub diags: RefCell<Vec<Diag>>,
    /// per decision executed: (decision, start token index, chosen alternative or 0)
    pub preds: RefCell<Vec<(usize, isize, isize)>>,
    /// where the prediction in progress started; a predicate evaluated elsewhere: (start, there)
    pub start: Cell<isize>,
    pub strayed: Cell<Option<(isize, isize)>>,
    pub evals: Cell<usize>,
    /// predicates in the order they were asked for: (rule, index in it, input position)
    pub asked: RefCell<Vec<(usize, usize, isize)>>,
    /// decision whose adaptive prediction failed last; None if a test of one token failed after it
    pub failed: Cell<Option<usize>>,
    /// (rule node id, token index) pairs etc. observed by the embedded listeners
    pub evs: RefCell<Vec<(usize, Ev)>>,
    /// listeners attached when the parse started, and what went wrong attaching them
    pub heard: RefCell<Vec<usize>>,
    pub bad_listener: RefCell<Option<String>>,
    /// expected-token probes taken in front of every match: (stream index, state, follow stack, tokens)
    pub probes: RefCell<Vec<Probe>>,
    /// model of the state the default strategy remembers in sync()
    pub saved: RefCell<Option<(usize, Vec<isize>)>>,
    /// what the error strategy was asked and did
    pub steps: RefCell<Vec<Step>>,
    /// per prediction: decision, first token, last token looked at, invoking states
    pub looks: RefCell<Vec<(usize, isize, isize, Vec<isize>)>>,
    /// first rule invocation stack that differs from the active rules: (got, wanted)
    pub bad_stack: RefCell<Option<(Vec<String>, Vec<String>)>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ask {
    Inline,
    Recover,
    Sync,
    Report,
    Match,
}
/// one call of the error strategy
#[derive(Clone, Debug)]
pub struct Step {
    pub ask: Ask,
    pub state: usize,
    /// invoking states, outermost first
    pub stack: Vec<isize>,
    pub la1: i32,
    pub la2: i32,
    /// stream index, recovery mode, number of reported errors; before and after
    pub before: (isize, bool, usize),
    pub after: (isize, bool, usize),
    pub ok: bool,
    /// token index, type, text, line, column of the returned token
    pub tok: Option<(isize, i32, String, isize, isize)>,
}
#[derive(Clone, Debug)]
pub struct Probe {
    pub state: usize,
    pub stack: Vec<isize>,
    pub expected: Vec<isize>,
    pub at: isize,
}

pub struct Rec {
    pub log: Rc<Log>,
}
fn kind(e: Option<&ANTLRError>) -> &'static str {
    match e {
        None => "inline",
        Some(ANTLRError::NoAltError(_)) => "no-alt",
        Some(ANTLRError::InputMismatchError(_)) => "mismatch",
        Some(ANTLRError::PredicateError(_)) => "pred",
        Some(_) => "other",
    }
}
impl<'a, T: Parser<'a>> ErrorListener<'a, T> for Rec {
    fn syntax_error(&self, r: &T, off: Option<&<T::TF as TokenFactory<'a>>::Inner>, line: isize, column: isize, msg: &str, e: Option<&ANTLRError>) {
        if debug() {
            eprintln!("syntax error at {}: {}", r.get_input_stream().index(), msg);
        }
        point(Point::Callback);
        self.log.errs.borrow_mut().push(ErrRec {
            line,
            col: column,
            msg: msg.to_string(),
            tok: off.map(|t| t.get_token_index()).unwrap_or(-2),
            kind: kind(e),
            at: r.get_input_stream().index(),
            state: r.get_state(),
            stack: {
                let mut v = vec![];
                let mut c = Some(r.get_parser_rule_context().clone());
                while let Some(x) = c {
                    if x.get_invoking_state() >= 0 {
                        v.push(x.get_invoking_state());
                    }
                    c = x.get_parent_ctx();
                }
                v.reverse();
                v
            },
            start: match e {
                Some(ANTLRError::NoAltError(n)) => n.start_token.get_token_index(),
                _ => -2,
            },
            etok: e.and_then(|e| e.get_offending_token()).map(|t| t.get_token_index()).unwrap_or(-2),
            estate: match e {
                Some(ANTLRError::NoAltError(n)) => n.base.offending_state,
                Some(ANTLRError::InputMismatchError(n)) => n.base.offending_state,
                Some(ANTLRError::PredicateError(n)) => n.base.offending_state,
                _ => -2,
            },
            rule: r.get_parser_rule_context().get_rule_index(),
            npreds: self.log.preds.borrow().len(),
            saved: self.log.saved.borrow().clone(),
            dec: self.log.failed.get(),
        });
    }
    fn report_ambiguity(&self, _r: &T, dfa: &DFA, start: isize, stop: isize, exact: bool, alts: &bit_set::BitSet, _c: &ATNConfigSet) {
        let seq = self.log.preds.borrow().len();
        if debug() {
            eprintln!("report decision {} {}..{} configs {}", dfa.decision, start, stop, _c.length());
        }
        self.log.diags.borrow_mut().push(Diag::Ambig { dec: dfa.decision, seq, start, stop, exact, alts: alts.iter().collect() });
    }
    fn report_attempting_full_context(&self, _r: &T, dfa: &DFA, start: isize, stop: isize, alts: &bit_set::BitSet, _c: &ATNConfigSet) {
        let seq = self.log.preds.borrow().len();
        if debug() {
            eprintln!("report decision {} {}..{} configs {}", dfa.decision, start, stop, _c.length());
        }
        self.log.diags.borrow_mut().push(Diag::Full { dec: dfa.decision, seq, start, stop, alts: alts.iter().collect() });
    }
    fn report_context_sensitivity(&self, _r: &T, dfa: &DFA, start: isize, stop: isize, alt: isize, _c: &ATNConfigSet) {
        let seq = self.log.preds.borrow().len();
        if debug() {
            eprintln!("report decision {} {}..{} configs {}", dfa.decision, start, stop, _c.length());
        }
        self.log.diags.borrow_mut().push(Diag::Ctx { dec: dfa.decision, seq, start, stop, alt });
    }
}

/// embedded listener; `who` distinguishes several
pub struct Lst {
    pub who: usize,
    pub log: Rc<Log>,
}
impl ParseTreeListener<'static, CtxType> for Lst {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, CtxType>) {
        self.log.evs.borrow_mut().push((self.who, Ev::Term(n.symbol.get_token_index())));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, CtxType>) {
        self.log.evs.borrow_mut().push((self.who, Ev::Err(n.symbol.get_token_index())));
    }
    fn enter_every_rule(&mut self, _ctx: &AnyNode) {}
}
impl VListener<'static> for Lst {
    fn enter_r(&mut self, ctx: &Node<'static>) {
        point(Point::Callback);
        self.log.evs.borrow_mut().push((self.who, Ev::Enter(ctx.rule, ctx.id)));
    }
    fn exit_r(&mut self, ctx: &Node<'static>) {
        self.log.evs.borrow_mut().push((self.who, Ev::Exit(ctx.rule, ctx.id)));
    }
}

// ------------------------------------------------------------------ parser

pub struct Ext {
    pub truth: Vec<bool>,
    pub nums: Rc<HashMap<(usize, usize), usize>>,
    pub npred: usize,
    /// (rule, index) -> precedence of the LR operator predicates is never asked through sempred
    pub log: Rc<Log>,
    pub bad_pred: Cell<bool>,
}
pub struct PExt<'input> {
    pub e: Ext,
    ph: std::marker::PhantomData<&'input str>,
}
antlr_rust::tid! { PExt<'a> }
impl<'i> TokenAware<'i> for PExt<'i> {
    type TF = CommonTokenFactory;
}
thread_local! {
    static ZLOG: RefCell<Option<Rc<Log>>> = const { RefCell::new(None) };
}
fn zlog(who: usize, e: Ev) {
    ZLOG.with(|z| {
        if let Some(l) = &*z.borrow() {
            l.evs.borrow_mut().push((who, e))
        }
    })
}
/// listeners without fields
pub struct ZL<const W: usize>;
impl<const W: usize> ParseTreeListener<'static, CtxType> for ZL<W> {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, CtxType>) {
        zlog(100 + W, Ev::Term(n.symbol.get_token_index()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, CtxType>) {
        zlog(100 + W, Ev::Err(n.symbol.get_token_index()));
    }
}
impl<const W: usize> VListener<'static> for ZL<W> {
    fn enter_r(&mut self, ctx: &Node<'static>) {
        zlog(100 + W, Ev::Enter(ctx.rule, ctx.id));
    }
    fn exit_r(&mut self, ctx: &Node<'static>) {
        zlog(100 + W, Ev::Exit(ctx.rule, ctx.id));
    }
}
enum LId {
    L(antlr_rust::ListenerId<Lst>, usize),
    Z0(antlr_rust::ListenerId<ZL<0>>),
    Z1(antlr_rust::ListenerId<ZL<1>>),
}
impl LId {
    fn who(&self) -> usize {
        match self {
            LId::L(_, w) => *w,
            LId::Z0(_) => 100,
            LId::Z1(_) => 101,
        }
    }
}
/// attach and detach listeners as `ops` say; `log.heard` lists those left
fn listener_ops<I>(base: &mut BP<I>, ops: &[u8], log: &Rc<Log>)
where
    I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>,
{
    ZLOG.with(|z| *z.borrow_mut() = Some(log.clone()));
    let mut here: Vec<LId> = vec![];
    let mut stale: Vec<LId> = vec![];
    let mut next = 0;
    for op in ops {
        let has = |w: usize, h: &Vec<LId>| h.iter().any(|i| i.who() == w);
        match op % 8 {
            0 | 1 => {
                here.push(LId::L(base.add_parse_listener(Box::new(Lst { who: next, log: log.clone() })), next));
                next += 1;
            }
            2 if !has(100, &here) => here.push(LId::Z0(base.add_parse_listener(Box::new(ZL::<0>)))),
            3 if !has(101, &here) => here.push(LId::Z1(base.add_parse_listener(Box::new(ZL::<1>)))),
            4 | 5 if !here.is_empty() => {
                let k = (*op as usize / 8) % here.len();
                match here.remove(k) {
                    LId::L(id, w) => {
                        let l = base.remove_parse_listener(id);
                        if l.who != w {
                            *log.bad_listener.borrow_mut() = Some(format!("removing listener {} gave listener {}", w, l.who));
                        }
                    }
                    LId::Z0(id) => drop(base.remove_parse_listener(id)),
                    LId::Z1(id) => drop(base.remove_parse_listener(id)),
                }
            }
            6 => {
                base.remove_parse_listeners();
                stale.append(&mut here);
            }
            7 => {
                // a listener that is gone cannot be removed again
                if let Some(k) = stale.iter().position(|i| matches!(i, LId::L(..))) {
                    if let LId::L(id, w) = stale.remove(k) {
                        if let Ok(l) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| base.remove_parse_listener(id))) {
                            *log.bad_listener.borrow_mut() = Some(format!("removing listener {}, already dropped, gave listener {}", w, l.who));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    *log.heard.borrow_mut() = here.iter().map(|i| i.who()).collect();
}

type BP<I> = BaseParser<'static, PExt<'static>, I, CtxType, dyn VListener<'static> + 'static>;

impl<I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>> ParserRecog<'static, BP<I>> for PExt<'static> {}
impl<I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>> Actions<'static, BP<I>> for PExt<'static> {
    fn get_grammar_file_name(&self) -> &str {
        "V.g4"
    }
    fn get_rule_names(&self) -> &[&str] {
        &RULE_NAMES
    }
    fn get_vocabulary(&self) -> &dyn Vocabulary {
        &**VOCAB
    }
    fn sempred(_l: Option<&AnyNode>, rule: isize, idx: isize, recog: &mut BP<I>) -> bool {
        let at = recog.input.index();
        let e = &recog.e;
        e.log.evals.set(e.log.evals.get() + 1);
        e.log.asked.borrow_mut().push((rule as usize, idx as usize, at));
        if at != e.log.start.get() {
            e.log.strayed.set(Some((e.log.start.get(), at)));
        }
        match e.nums.get(&(rule as usize, idx as usize)) {
            Some(i) => holds(&e.truth, e.npred, *i, at as usize),
            None => {
                e.bad_pred.set(true);
                true
            }
        }
    }
}

/// error strategy that records what the wrapped one does
pub struct Mon<H> {
    inner: H,
    log: Rc<Log>,
}
antlr_rust::tid! { impl<'a, H> TidAble<'a> for Mon<H> where H: 'a }
impl<H> Mon<H> {
    fn around<I, X>(&mut self, ask: Ask, p: &mut BP<I>, f: impl FnOnce(&mut H, &mut BP<I>) -> X) -> (Step, X)
    where
        I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>,
        H: ErrorStrategy<'static, BP<I>>,
    {
        let snap = |h: &mut H, p: &mut BP<I>, l: &Rc<Log>| (p.input.index(), h.in_error_recovery_mode(p), l.errs.borrow().len());
        let mut stack = vec![];
        let mut ctx: Option<Rc<AnyNode>> = Some(p.get_parser_rule_context().clone());
        while let Some(c) = ctx {
            if c.get_invoking_state() >= 0 {
                stack.push(c.get_invoking_state());
            }
            ctx = c.get_parent_ctx();
        }
        stack.reverse();
        let before = snap(&mut self.inner, p, &self.log);
        let (la1, la2) = (p.input.la(1) as i32, p.input.la(2) as i32);
        let state = p.get_state() as usize;
        let x = f(&mut self.inner, p);
        let after = snap(&mut self.inner, p, &self.log);
        (Step { ask, state, stack, la1, la2, before, after, ok: true, tok: None }, x)
    }
    fn push(&self, s: Step) {
        if debug() {
            eprintln!("{:?}", s);
        }
        self.log.steps.borrow_mut().push(s);
    }
}
impl<I, H> ErrorStrategy<'static, BP<I>> for Mon<H>
where
    I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>,
    H: ErrorStrategy<'static, BP<I>> + TidAble<'static>,
{
    fn reset(&mut self, p: &mut BP<I>) {
        self.inner.reset(p)
    }
    fn recover_inline(&mut self, p: &mut BP<I>) -> Result<<CommonTokenFactory as TokenFactory<'static>>::Tok, ANTLRError> {
        let (mut st, x) = self.around(Ask::Inline, p, |h, p| h.recover_inline(p));
        st.ok = x.is_ok();
        st.tok = x.as_ref().ok().map(|t| (t.get_token_index(), t.get_token_type() as i32, t.get_text().to_string(), t.get_line(), t.get_column()));
        self.push(st);
        x
    }
    fn recover(&mut self, p: &mut BP<I>, e: &ANTLRError) -> Result<(), ANTLRError> {
        let (mut st, x) = self.around(Ask::Recover, p, |h, p| h.recover(p, e));
        st.ok = x.is_ok();
        self.push(st);
        x
    }
    fn sync(&mut self, p: &mut BP<I>) -> Result<(), ANTLRError> {
        let (mut st, x) = self.around(Ask::Sync, p, |h, p| h.sync(p));
        st.ok = x.is_ok();
        self.push(st);
        x
    }
    fn in_error_recovery_mode(&mut self, p: &mut BP<I>) -> bool {
        self.inner.in_error_recovery_mode(p)
    }
    fn report_error(&mut self, p: &mut BP<I>, e: &ANTLRError) {
        let (st, _) = self.around(Ask::Report, p, |h, p| h.report_error(p, e));
        self.push(st);
    }
    fn report_match(&mut self, p: &mut BP<I>) {
        let (st, _) = self.around(Ask::Match, p, |h, p| h.report_match(p));
        self.push(st);
    }
}

#[derive(Clone)]
pub struct Opts {
    /// record every call of the (default) error strategy
    pub monitor: bool,
    /// record how far every prediction looks
    pub looks: bool,
    /// compare the parser's rule invocation stack with the active rules in front of every match
    pub names: bool,
    pub mode: u8, // 0 SLL 1 LL 2 LL_EXACT
    pub bail: bool,
    pub trees: bool,
    pub listeners: usize,
    /// more listeners attached and detached
    pub lops: Vec<u8>,
    pub dump: bool,
    /// 0 common, 1 unbuffered-buffered, 2 truly unbuffered
    pub stream: u8,
    pub ll1: bool,
    pub truth: Vec<bool>,
    pub diag: bool,
    pub diag_exact_only: bool,
    pub probe: bool,
    pub budget: u64,
    pub extra_diag_listener: bool,
    pub dyn_strategy: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            monitor: false,
            looks: false,
            names: false,
            mode: 1,
            bail: false,
            trees: true,
            listeners: 0,
            lops: vec![],
            dump: false,
            stream: 0,
            ll1: false,
            truth: vec![],
            diag: false,
            diag_exact_only: true,
            probe: false,
            budget: 300_000,
            extra_diag_listener: false,
            dyn_strategy: false,
        }
    }
}

pub struct Out {
    pub root: Option<Rc<Node<'static>>>,
    pub err: Option<String>,
    pub cancelled: bool,
    pub log: Rc<Log>,
    pub info: Rc<StreamInfo>,
    pub index: isize,
    pub bad_pred: bool,
    pub tree_str: String,
    /// what dump_dfa printed
    pub dump: String,
    pub syntax_errors: usize,
    pub state_after: isize,
    pub ctx_after_none: bool,
}

pub struct P1<'c, I, H>
where
    I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static> + HasInfo,
    H: ErrorStrategy<'static, BP<I>>,
{
    base: BP<I>,
    interp: Arc<ParserATNSimulator>,
    eh: H,
    c: &'c Compiled,
    o: &'c Opts,
    log: Rc<Log>,
    next_id: usize,
    depth: usize,
    active: Vec<usize>,
}

type RE<T> = Result<T, ANTLRError>;

impl<'c, I, H> P1<'c, I, H>
where
    I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static> + HasInfo,
    H: ErrorStrategy<'static, BP<I>>,
{
    fn ctx(&mut self, parent: Option<Rc<AnyNode>>, st: isize, rule: usize, base: bool) -> Rc<Node<'static>> {
        self.next_id += 1;
        Rc::new(BaseParserRuleContext::new_parser_ctx(parent, st, NodeExt { rule, label: 0, id: self.next_id, base, ph: Default::default() }))
    }
    /// labelled alternative: the generated code copies the base context
    fn relabel(&mut self, c: &Rc<Node<'static>>, label: usize) -> Rc<Node<'static>> {
        Rc::new(BaseParserRuleContext::copy_from(&**c, NodeExt { rule: c.rule, label, id: c.id, base: false, ph: Default::default() }))
    }
    fn stack(&self) -> Vec<isize> {
        let mut stack = vec![];
        let mut ctx: Option<Rc<AnyNode>> = Some(self.base.get_parser_rule_context().clone());
        while let Some(c) = ctx {
            if c.get_invoking_state() >= 0 {
                stack.push(c.get_invoking_state());
            }
            ctx = c.get_parent_ctx();
        }
        stack.reverse();
        stack
    }
    fn sync(&mut self) -> RE<()> {
        if self.o.probe && !self.o.bail && !self.eh.in_error_recovery_mode(&mut self.base) {
            let st = self.base.get_state() as usize;
            let next = self.c.look_state(st);
            let la = self.base.input.la(1) as i32;
            if next.contains(&Some(la)) {
                *self.log.saved.borrow_mut() = None;
            } else if next.contains(&None) && self.log.saved.borrow().is_none() {
                *self.log.saved.borrow_mut() = Some((st, self.stack()));
            }
        }
        self.eh.sync(&mut self.base)
    }
    fn predict(&mut self, dec: usize) -> RE<isize> {
        let at = self.base.input.index();
        point(Point::Between);
        self.log.start.set(at);
        self.base.input.inner_info().far.set(at);
        let r = self.interp.adaptive_predict(dec as isize, &mut self.base);
        if self.o.looks {
            let far = self.base.input.inner_info().far.get();
            let stack = self.stack();
            self.log.looks.borrow_mut().push((dec, at, far, stack));
        }
        if debug() {
            eprintln!("predict {} at {} -> {:?}", dec, at, r);
        }
        if r.is_err() {
            self.log.failed.set(Some(dec));
        }
        self.log.preds.borrow_mut().push((dec, at, *r.as_ref().unwrap_or(&0)));
        if self.base.input.index() != at {
            panic!("{} prediction moved the input from {} to {}", BUDGET, at, self.base.input.index());
        }
        r
    }
    fn ll1(&self, dec: usize) -> Option<&'c Vec<Vec<i32>>> {
        if self.o.ll1 {
            self.c.ll1[dec].as_ref()
        } else {
            None
        }
    }
    fn ll1_alt(&mut self, sets: &[Vec<i32>]) -> isize {
        let la = self.base.input.la(1) as i32;
        for (i, s) in sets.iter().enumerate() {
            if s.contains(&la) {
                return i as isize + 1;
            }
        }
        0
    }
    fn no_alt(&mut self) -> ANTLRError {
        self.log.failed.set(None);
        ANTLRError::NoAltError(NoViableAltError::new(&mut self.base))
    }
    fn probe(&mut self) {
        if self.o.names {
            let got = self.base.get_rule_invocation_stack();
            let want: Vec<String> = self.active.iter().rev().map(|r| RULE_NAMES[*r].to_string()).collect();
            if got != want && self.log.bad_stack.borrow().is_none() {
                *self.log.bad_stack.borrow_mut() = Some((got, want));
            }
        }
        if self.o.probe {
            let exp = self.base.get_expected_tokens();
            let mut toks = vec![];
            for i in -2..=(self.c.g.ntok as isize + 2) {
                if exp.contains(i) {
                    toks.push(i);
                }
            }
            let stack = self.stack();
            let p = Probe { state: self.base.get_state() as usize, stack, expected: toks, at: self.base.input.index() };
            self.log.probes.borrow_mut().push(p);
        }
    }

    pub fn rule(&mut self, r: usize, prec: u32) -> RE<Rc<Node<'static>>> {
        self.depth += 1;
        if debug() {
            eprintln!("rule {} at {}", r, self.base.input.index());
        }
        if self.depth > 4000 {
            panic!("{} rule invocation depth", BUDGET);
        }
        let c = self.c;
        self.active.push(r);
        let res = match &c.rules[r] {
            CR::Plain { start, blk, alts } => self.plain(r, *start, blk, alts),
            CR::Lr { start, lr } => self.lr(r, *start, lr, prec),
        };
        self.depth -= 1;
        self.active.pop();
        res
    }

    fn finish(&mut self, result: RE<()>) -> RE<()> {
        match result {
            Ok(_) => {}
            Err(e @ ANTLRError::FallThrough(_)) => return Err(e),
            Err(ref re) => {
                self.eh.report_error(&mut self.base, re);
                self.eh.recover(&mut self.base, re)?;
            }
        }
        Ok(())
    }

    fn plain(&mut self, r: usize, start: usize, blk: &Option<(usize, usize)>, alts: &'c [Vec<N>]) -> RE<Rc<Node<'static>>> {
        let labelled = self.c.g.labelled[r];
        let parent = self.base.ctx.take();
        let st = self.base.get_state();
        let mut local = self.ctx(parent.clone(), st, r, self.c.g.labelled[r]);
        self.base.enter_rule(local.clone(), start as isize, r);
        let result: RE<()> = (|| {
            let alt = match blk {
                None => 1,
                Some((st, dec)) => {
                    self.base.set_state(*st as isize);
                    self.sync()?;
                    match self.ll1(*dec) {
                        Some(sets) => match self.ll1_alt(sets) {
                            0 => return Err(self.no_alt()),
                            a => a,
                        },
                        None => self.predict(*dec)?,
                    }
                }
            };
            if alt < 1 || alt as usize > alts.len() {
                return Ok(());
            }
            if labelled {
                let tmp = self.relabel(&local, alt as usize);
                self.base.enter_outer_alt(Some(tmp.clone()), alt);
                local = tmp;
            } else {
                self.base.enter_outer_alt(None, alt);
            }
            self.seq(&alts[alt as usize - 1])
        })();
        self.finish(result)?;
        self.base.exit_rule();
        Ok(local)
    }

    fn lr(&mut self, r: usize, start: usize, lr: &'c CLr, prec: u32) -> RE<Rc<Node<'static>>> {
        let labelled = self.c.g.labelled[r];
        let parent = self.base.ctx.take();
        let parent_state = self.base.get_state();
        let mut local = self.ctx(parent.clone(), parent_state, r, false);
        self.base.enter_recursion_rule(local.clone(), start as isize, r, prec as isize);
        let result: RE<()> = (|| {
            self.base.enter_outer_alt(None, 1);
            let alt = match &lr.prim_blk {
                None => 1,
                Some((st, dec)) => {
                    self.base.set_state(*st as isize);
                    self.sync()?;
                    match self.ll1(*dec) {
                        Some(sets) => match self.ll1_alt(sets) {
                            0 => return Err(self.no_alt()),
                            a => a,
                        },
                        None => self.predict(*dec)?,
                    }
                }
            };
            if alt >= 1 && alt as usize <= lr.prims.len() {
                let i = alt as usize - 1;
                if labelled {
                    let tmp = self.relabel(&local, lr.prim_alt[i]);
                    self.base.ctx = Some(tmp.clone());
                    local = tmp;
                }
                self.seq(&lr.prims[i])?;
            }
            let tmp = self.base.input.lt(-1).cloned();
            self.base.ctx.as_ref().unwrap().set_stop(tmp);
            self.base.set_state(lr.entry as isize);
            self.sync()?;
            let mut a = self.predict(lr.dec)?;
            while a != 2 && a != INVALID_ALT {
                if a == 1 {
                    self.base.trigger_exit_rule_event();
                    let op = match &lr.blk {
                        None => 1,
                        Some((st, dec)) => {
                            self.base.set_state(*st as isize);
                            self.sync()?;
                            self.predict(*dec)?
                        }
                    };
                    if op >= 1 && op as usize <= lr.ops.len() {
                        let (pst, p, body) = &lr.ops[op as usize - 1];
                        let base = self.ctx(parent.clone(), parent_state, r, false);
                        let tmp = if labelled { self.relabel(&base, lr.op_alt[op as usize - 1]) } else { base };
                        self.base.push_new_recursion_context(tmp.clone(), start as isize, r);
                        local = tmp;
                        self.base.set_state(*pst as isize);
                        if !self.base.precpred(None, *p as isize) {
                            Err(FailedPredicateError::new(&mut self.base, Some(format!("recog.precpred(None, {})", p)), None))?;
                        }
                        self.seq(body)?;
                    }
                }
                self.base.set_state(lr.back as isize);
                self.sync()?;
                a = self.predict(lr.dec)?;
            }
            Ok(())
        })();
        self.finish(result)?;
        self.base.unroll_recursion_context(parent);
        Ok(local)
    }

    fn seq(&mut self, s: &'c [N]) -> RE<()> {
        for n in s {
            self.elem(n)?;
        }
        Ok(())
    }

    fn block(&mut self, st: usize, dec: usize, alts: &'c [Vec<N>]) -> RE<()> {
        self.base.set_state(st as isize);
        self.sync()?;
        let a = match self.ll1(dec) {
            Some(sets) => match self.ll1_alt(sets) {
                0 => return Err(self.no_alt()),
                a => a,
            },
            None => self.predict(dec)?,
        };
        if a >= 1 && a as usize <= alts.len() {
            self.seq(&alts[a as usize - 1])?;
        }
        Ok(())
    }

    fn elem(&mut self, n: &'c N) -> RE<()> {
        point(Point::Between);
        match n {
            N::Tok { st, t } => {
                self.base.set_state(*st as isize);
                self.probe();
                self.base.match_token(*t as isize, &mut self.eh)?;
            }
            N::Set { st, set, not } => {
                self.base.set_state(*st as isize);
                self.probe();
                let la = self.base.input.la(1);
                let hit = set.contains(&(la as i32));
                let ok = if *not { !(la <= 0 || hit) } else { hit };
                if !ok {
                    self.eh.recover_inline(&mut self.base)?;
                } else {
                    if self.base.input.la(1) == TOKEN_EOF {
                        self.base.matched_eof = true
                    }
                    self.eh.report_match(&mut self.base);
                    self.base.consume(&mut self.eh);
                }
            }
            N::Wild { st } => {
                self.base.set_state(*st as isize);
                self.probe();
                self.base.match_wildcard(&mut self.eh)?;
            }
            N::Rule { st, rule, prec } => {
                self.base.set_state(*st as isize);
                self.rule(*rule, *prec)?;
            }
            N::Pred { st, idx } => {
                self.base.set_state(*st as isize);
                if !holds(&self.o.truth, self.c.g.npred, *idx, self.base.input.index() as usize) {
                    Err(FailedPredicateError::new(&mut self.base, Some(format!("p{}", idx)), None))?;
                }
            }
            N::Act => point(Point::Callback),
            N::Blk { st, dec, alts } => self.block(*st, *dec, alts)?,
            N::Opt { st, dec, alts, greedy } => {
                self.base.set_state(*st as isize);
                self.sync()?;
                let a = match self.ll1(*dec) {
                    Some(sets) => self.ll1_alt(sets),
                    None => self.predict(*dec)?,
                };
                let a = if *greedy { a - 1 } else { a - 2 };
                if a >= 0 && (a as usize) < alts.len() {
                    self.seq(&alts[a as usize])?;
                }
            }
            N::Star { entry, dec, blk, alts, back, greedy } => {
                let (enter, exit) = if *greedy { (1, 2) } else { (2, 1) };
                self.base.set_state(*entry as isize);
                self.sync()?;
                if let Some(sets) = self.ll1(*dec) {
                    let lp = &sets[enter as usize - 1];
                    while lp.contains(&(self.base.input.la(1) as i32)) {
                        self.body(blk, alts)?;
                        self.base.set_state(*back as isize);
                        self.sync()?;
                    }
                } else {
                    let mut a = self.predict(*dec)?;
                    while a != exit && a != INVALID_ALT {
                        if a == enter {
                            self.body(blk, alts)?;
                        }
                        self.base.set_state(*back as isize);
                        self.sync()?;
                        a = self.predict(*dec)?;
                    }
                }
            }
            N::Plus { blkst, blkdec, alts, back, dec, greedy } => {
                let (enter, exit) = if *greedy { (1, 2) } else { (2, 1) };
                let blk = blkdec.map(|d| (*blkst, d));
                self.base.set_state(*blkst as isize);
                self.sync()?;
                let mut a = enter;
                loop {
                    if a == enter {
                        self.body(&blk, alts)?;
                    } else {
                        return Err(self.no_alt());
                    }
                    self.base.set_state(*back as isize);
                    self.sync()?;
                    if let Some(sets) = self.ll1(*dec) {
                        if !sets[enter as usize - 1].contains(&(self.base.input.la(1) as i32)) {
                            break;
                        }
                    } else {
                        a = self.predict(*dec)?;
                        if a == exit || a == INVALID_ALT {
                            break;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn body(&mut self, blk: &Option<(usize, usize)>, alts: &'c [Vec<N>]) -> RE<()> {
        match blk {
            None => self.seq(&alts[0]),
            Some((st, dec)) => self.block(*st, *dec, alts),
        }
    }
}

fn go<I, H>(c: &Compiled, sh: &Shared, input: I, info: Rc<StreamInfo>, eh: H, o: &Opts) -> Out
where
    I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>,
    H: ErrorStrategy<'static, BP<Cnt<I>>>,
    Cnt<I>: TidAble<'static>,
{
    go_log(c, sh, input, info, eh, o, Rc::new(Log::default()))
}
fn go_log<I, H>(c: &Compiled, sh: &Shared, input: I, info: Rc<StreamInfo>, eh: H, o: &Opts, log: Rc<Log>) -> Out
where
    I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>,
    H: ErrorStrategy<'static, BP<Cnt<I>>>,
    Cnt<I>: TidAble<'static>,
{
    let interp = Arc::new(ParserATNSimulator::new(sh.atn.clone(), sh.dfas.clone(), sh.cache.clone()));
    interp.set_prediction_mode(match o.mode {
        0 => PredictionMode::SLL,
        1 => PredictionMode::LL,
        _ => PredictionMode::LL_EXACT_AMBIG_DETECTION,
    });
    let mut truth = o.truth.clone();
    truth.resize(c.g.npred.max(truth.len()), true);
    let ext = PExt {
        e: Ext { truth, nums: Rc::new(pred_numbers(&c.g)), npred: c.g.npred, log: log.clone(), bad_pred: Cell::new(false) },
        ph: Default::default(),
    };
    let input = Cnt { inner: input, left: o.budget, marks: vec![], info: info.clone() };
    let mut base: BP<Cnt<I>> = BaseParser::new_base_parser(input, interp.clone(), ext);
    base.build_parse_trees = o.trees;
    if !crate::engine::console() {
        base.remove_error_listeners();
    }
    base.add_error_listener(Box::new(Rec { log: log.clone() }));
    if o.extra_diag_listener {
        base.add_error_listener(Box::new(DiagnosticErrorListener::new(o.diag_exact_only)));
    }
    for i in 0..o.listeners {
        base.add_parse_listener(Box::new(Lst { who: i, log: log.clone() }));
    }
    if !o.lops.is_empty() {
        listener_ops(&mut base, &o.lops, &log);
    }
    let mut o2 = o.clone();
    o2.truth.resize(c.g.npred.max(o.truth.len()), true);
    let mut p = P1 { base, interp, eh, c, o: &o2, log: log.clone(), next_id: 0, depth: 0, active: vec![] };
    let r = p.rule(p.c.g.start, 0);
    let (root, err, cancelled) = match r {
        Ok(n) => (Some(n), None, false),
        Err(e) => {
            let canc = matches!(&e, ANTLRError::FallThrough(_));
            (None, Some(format!("{}", e)), canc)
        }
    };
    let tree_str = match &root {
        Some(n) if o.trees => n.to_string_tree(&p.base),
        _ => String::new(),
    };
    let dump = if o.dump { crate::engine::captured(1, || p.base.dump_dfa()).1 } else { String::new() };
    let index = p.base.input.index();
    let bad_pred = p.base.e.bad_pred.get();
    let state_after = p.base.get_state();
    let ctx_after_none = p.base.ctx.is_none();
    let syntax_errors = log.errs.borrow().len();
    Out { root, err, cancelled, log, info, index, bad_pred, tree_str, dump, syntax_errors, state_after, ctx_after_none }
}

pub fn plain_toks(w: &[i32]) -> Vec<TokSpec> {
    w.iter().map(|t| TokSpec { ty: *t, channel: 0, text: tname(*t).to_lowercase() }).collect()
}

pub fn run(c: &Compiled, sh: &Shared, toks: &[TokSpec], o: &Opts) -> Out {
    let src = Toks::new(toks.to_vec());
    let info = Rc::new(StreamInfo::default());
    macro_rules! with {
        ($s:expr) => {{
            if o.monitor && !o.bail {
                let log = Rc::new(Log::default());
                go_log(c, sh, $s, info, Mon { inner: DefaultErrorStrategy::<'static, CtxType>::new(), log: log.clone() }, o, log)
            } else if o.dyn_strategy {
                let b: Box<dyn ErrorStrategy<'static, BP<_>> + 'static> =
                    if o.bail { Box::new(BailErrorStrategy::new()) } else { Box::new(DefaultErrorStrategy::new()) };
                go(c, sh, $s, info, b, o)
            } else if o.bail {
                go(c, sh, $s, info, BailErrorStrategy::new(), o)
            } else {
                go(c, sh, $s, info, DefaultErrorStrategy::new(), o)
            }
        }};
    }
    match o.stream {
        0 => with!(CommonTokenStream::new(src)),
        1 => with!(UnbufferedTokenStream::new_buffered(src)),
        _ => with!(UnbufferedTokenStream::new_unbuffered(src)),
    }
}

// ------------------------------------------------------------------ tree views

pub fn leaf_kind(n: &Rc<AnyNode>) -> Option<(isize, bool)> {
    // (token index, is_error)
    if let Ok(t) = n.clone().downcast_rc::<TerminalNode<'static, CtxType>>() {
        return Some((t.symbol.get_token_index(), false));
    }
    if let Ok(t) = n.clone().downcast_rc::<ErrorNode<'static, CtxType>>() {
        return Some((t.symbol.get_token_index(), true));
    }
    None
}
pub fn as_rule(n: &Rc<AnyNode>) -> Option<Rc<Node<'static>>> {
    n.clone().downcast_rc::<Node<'static>>().ok()
}

/// "(r0 0 (r1#2 1 e2))"; error leaves are prefixed with e
pub fn tree_sig(n: &Node<'static>, idx: &dyn Fn(isize) -> isize) -> String {
    let mut o = format!("(r{}", n.rule);
    if n.label > 0 {
        o += &format!("#{}", n.label);
    }
    for ch in n.get_children() {
        o.push(' ');
        match leaf_kind(&ch) {
            Some((i, e)) => o += &format!("{}{}", if e { "e" } else { "" }, idx(i)),
            None => match as_rule(&ch) {
                Some(r) => o += &tree_sig(&r, idx),
                None => o += "?",
            },
        }
    }
    o.push(')');
    o
}

// ------------------------------------------------------------------ walking finished trees

/// plain visitor
#[derive(Default)]
pub struct Vis {
    pub evs: Vec<Ev>,
}
impl ParseTreeVisitor<'static, CtxType> for Vis {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, CtxType>) {
        self.evs.push(Ev::Term(n.symbol.get_token_index()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, CtxType>) {
        self.evs.push(Ev::Err(n.symbol.get_token_index()));
    }
}
impl VVisitor<'static> for Vis {
    fn visit_r(&mut self, ctx: &Node<'static>) {
        self.evs.push(Ev::Enter(ctx.rule, ctx.id));
        self.visit_children(ctx);
        self.evs.push(Ev::Exit(ctx.rule, ctx.id));
    }
}
pub fn visit(n: &Rc<Node<'static>>) -> Vec<Ev> {
    let mut v = Vis::default();
    v.visit_node(&**n as &AnyNode);
    v.evs
}

/// visitor with return values: builds the leaf list bottom-up; `cut` stops visiting once that many leaves were collected
#[derive(Default)]
pub struct Ret {
    tmp: Vec<isize>,
    pub cut: Option<usize>,
    pub rules: usize,
}
pub trait VVisitorCompat: ParseTreeVisitorCompat<'static, Node = CtxType> {
    fn visit_r(&mut self, ctx: &Node<'static>) -> Self::Return {
        self.visit_children(ctx)
    }
}
impl<T: VVisitorCompat> VVisitor<'static> for T {
    fn visit_r(&mut self, ctx: &Node<'static>) {
        let r = <Self as VVisitorCompat>::visit_r(self, ctx);
        *<Self as ParseTreeVisitorCompat>::temp_result(self) = r;
    }
}
impl ParseTreeVisitorCompat<'static> for Ret {
    type Node = CtxType;
    type Return = Vec<isize>;
    fn temp_result(&mut self) -> &mut Vec<isize> {
        &mut self.tmp
    }
    fn visit_terminal(&mut self, n: &TerminalNode<'static, CtxType>) -> Vec<isize> {
        vec![n.symbol.get_token_index()]
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, CtxType>) -> Vec<isize> {
        vec![-100 - n.symbol.get_token_index()]
    }
    fn aggregate_results(&self, mut a: Vec<isize>, b: Vec<isize>) -> Vec<isize> {
        a.extend(b);
        a
    }
    fn should_visit_next_child(&self, _n: &AnyNode, cur: &Vec<isize>) -> bool {
        self.cut.map_or(true, |c| cur.len() < c)
    }
}
impl VVisitorCompat for Ret {
    fn visit_r(&mut self, ctx: &Node<'static>) -> Vec<isize> {
        self.rules += 1;
        <Self as ParseTreeVisitorCompat>::visit_children(self, ctx)
    }
}
pub fn collect(n: &Rc<Node<'static>>, cut: Option<usize>) -> (Vec<isize>, usize) {
    let mut v = Ret { cut, ..Default::default() };
    let r = <Ret as ParseTreeVisitorCompat>::visit(&mut v, &**n as &AnyNode);
    (r, v.rules)
}

pub fn walk(n: &Rc<Node<'static>>) -> Vec<Ev> {
    let log = Rc::new(Log::default());
    let l = Box::new(Lst { who: 0, log: log.clone() });
    let _l = ParseTreeWalker::<'static, 'static, CtxType, dyn VListener<'static> + 'static>::walk(l, &**n);
    let r = log.evs.borrow().iter().map(|x| x.1.clone()).collect();
    r
}

/// visitor that keeps all defaults: a node's result is that of its last child
#[derive(Default)]
pub struct Plain {
    tmp: Option<isize>,
}
impl ParseTreeVisitorCompat<'static> for Plain {
    type Node = CtxType;
    type Return = Option<isize>;
    fn temp_result(&mut self) -> &mut Option<isize> {
        &mut self.tmp
    }
    fn visit_terminal(&mut self, n: &TerminalNode<'static, CtxType>) -> Option<isize> {
        Some(n.symbol.get_token_index())
    }
}
impl VVisitorCompat for Plain {}
pub fn last_leaf(n: &Rc<Node<'static>>) -> Option<isize> {
    let mut v = Plain::default();
    <Plain as ParseTreeVisitorCompat>::visit(&mut v, &**n as &AnyNode)
}
