//! C25: recognizers generated by the bundled Rust template, end to end over generated inputs.
//!
//! The grammars are those of /repo/grammars; their generated recognizers are compiled into this crate straight
//! from /repo/tests/gen. Inputs are built together with the tokens, tree, values and events they must give.
use crate::engine::*;
use crate::ensure;
use crate::Prop;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::error_strategy::{BailErrorStrategy, DefaultErrorStrategy};
use antlr_rust::errors::ANTLRError;
use antlr_rust::interval_set::Interval;
use antlr_rust::lexer::Lexer;
use antlr_rust::parser::{Parser, ParserNodeType};
use antlr_rust::parser_rule_context::{ParserRuleContext, RuleContextExt};
use antlr_rust::recognizer::Recognizer;
use antlr_rust::rule_context::{CustomRuleContext, RuleContext};
use antlr_rust::token::{Token, TOKEN_EOF};
use antlr_rust::token_factory::{ArenaCommonFactory, ArenaFactory, OwningTokenFactory, TokenFactory};
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::tree::*;
use antlr_rust::{InputStream, TidAble, TidExt, TokenSource};
use std::borrow::{Borrow, Cow};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// counts syntax errors
struct Count(Rc<Cell<usize>>);
impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for Count {
    fn syntax_error(&self, _r: &T, _o: Option<&<T::TF as TokenFactory<'a>>::Inner>, _l: isize, _c: isize, _m: &str, _e: Option<&ANTLRError>) {
        self.0.set(self.0.get() + 1);
    }
}

/// a token that must come out of the lexer; offsets in characters
#[derive(Clone, Debug, PartialEq)]
struct Tk {
    ty: isize,
    ch: isize,
    text: String,
    start: isize,
    stop: isize,
    line: isize,
    col: isize,
}
#[derive(Default, Clone)]
struct Build {
    text: String,
    toks: Vec<Tk>,
    pos: isize,
    line: isize,
    col: isize,
}
impl Build {
    fn new() -> Build {
        Build { line: 1, ..Default::default() }
    }
    /// text that belongs to no token
    fn skip(&mut self, t: &str) {
        for c in t.chars() {
            self.pos += 1;
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.text.push_str(t);
    }
    fn tok(&mut self, ty: isize, t: &str) {
        self.tok_ch(ty, 0, t)
    }
    fn tok_ch(&mut self, ty: isize, ch: isize, t: &str) {
        let (start, line, col) = (self.pos, self.line, self.col);
        self.skip(t);
        self.toks.push(Tk { ty, ch, text: t.to_string(), start, stop: self.pos - 1, line, col });
    }
    fn eof(&mut self) {
        let t = Tk { ty: TOKEN_EOF, ch: 0, text: "<EOF>".into(), start: self.pos, stop: self.pos - 1, line: self.line, col: self.col };
        self.toks.push(t);
    }
    /// the same tokens with offsets in bytes of the UTF-8 text
    fn in_bytes(&self) -> Vec<Tk> {
        let mut off: Vec<isize> = self.text.char_indices().map(|x| x.0 as isize).collect();
        off.push(self.text.len() as isize);
        self.toks
            .iter()
            .map(|t| {
                let mut t = t.clone();
                t.stop = off[(t.stop + 1) as usize] - 1;
                t.start = off[t.start as usize];
                t
            })
            .collect()
    }
    fn visible(&self) -> Vec<Tk> {
        self.toks.iter().filter(|t| t.ch == 0).cloned().collect()
    }
}

fn tk<'i, T: Token + ?Sized>(t: &T) -> Tk
where
    T::Data: antlr_rust::char_stream::InputData,
{
    Tk {
        ty: t.get_token_type(),
        ch: t.get_channel(),
        text: antlr_rust::char_stream::InputData::to_display(t.get_text()),
        start: t.get_start(),
        stop: t.get_stop(),
        line: t.get_line(),
        col: t.get_column(),
    }
}

macro_rules! lex_all {
    ($lexer:expr) => {{
        let mut lexer = $lexer;
        lexer.remove_error_listeners();
        let errs = Rc::new(Cell::new(0));
        lexer.add_error_listener(Box::new(Count(errs.clone())));
        let mut v = vec![];
        loop {
            let t = lexer.next_token();
            v.push(tk(&*t));
            if v.last().unwrap().ty == TOKEN_EOF || v.len() > 2000 {
                break;
            }
        }
        (v, errs.get())
    }};
}

fn esc(s: &str) -> String {
    s.replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}

fn same(what: &str, got: &Vec<Tk>, want: &Vec<Tk>, d: &str) -> Check {
    for i in 0..got.len().max(want.len()) {
        ensure!(got.get(i) == want.get(i), "{} {:?}: token {} is {:?}, by the grammar it is {:?}", what, d, i, got.get(i), want.get(i));
    }
    Ok(())
}

/// tree of rule names and token texts
#[derive(Clone, Debug, PartialEq)]
enum T {
    Rule(&'static str, usize, Vec<T>),
    Leaf(isize, String),
    Err(String),
}
impl T {
    fn lisp(&self, out: &mut String) {
        match self {
            T::Leaf(_, s) | T::Err(s) => out.push_str(&esc(s)),
            T::Rule(n, _, v) => {
                if v.is_empty() {
                    out.push_str(n)
                } else {
                    out.push('(');
                    out.push_str(n);
                    for x in v {
                        out.push(' ');
                        x.lisp(out);
                    }
                    out.push(')');
                }
            }
        }
    }
    fn text(&self, out: &mut String) {
        match self {
            T::Leaf(_, s) | T::Err(s) => out.push_str(s),
            T::Rule(_, _, v) => v.iter().for_each(|x| x.text(out)),
        }
    }
    fn leaves(&self) -> usize {
        match self {
            T::Rule(_, _, v) => v.iter().map(|x| x.leaves()).sum(),
            _ => 1,
        }
    }
    fn count(&self, name: &str) -> usize {
        match self {
            T::Rule(n, _, v) => (*n == name) as usize + v.iter().map(|x| x.count(name)).sum::<usize>(),
            _ => 0,
        }
    }
    fn has_err(&self) -> bool {
        match self {
            T::Rule(_, _, v) => v.iter().any(|x| x.has_err()),
            T::Err(_) => true,
            _ => false,
        }
    }
}

/// Events of a walk: "E<rule>" enter every, "+name"/"-name" specific, "X<rule>" exit every, "t"/"e" leaves.
/// `name` gives the specific name; nodes of unknown alternative (the parse failed before one was chosen) have none
fn events(t: &T, names: &dyn Fn(&T) -> Option<String>, out: &mut Vec<String>) {
    match t {
        T::Leaf(ty, s) => out.push(format!("t{}:{}", ty, s)),
        T::Err(s) => out.push(format!("e:{}", s)),
        T::Rule(_, idx, v) => {
            let n = names(t);
            if let Some(n) = &n {
                out.push(format!("E{}", idx));
                out.push(format!("+{}", n));
            }
            for x in v {
                events(x, names, out);
            }
            if let Some(n) = &n {
                out.push(format!("-{}", n));
                out.push(format!("X{}", idx));
            }
        }
    }
}

fn diff_events(what: &str, got: &[String], want: &[String], d: &str) -> Check {
    for i in 0..got.len().max(want.len()) {
        ensure!(got.get(i) == want.get(i), "{} over {:?}: event {} is {:?}, it must be {:?}", what, d, i, got.get(i), want.get(i));
    }
    Ok(())
}

/// reads the real tree back through the public API, checking links on the way
macro_rules! reader {
    ($fname:ident, $Ctx:ty, $Dyn:ident, $label:expr) => {
        fn $fname<'i>(t: &Rc<dyn $Dyn<'i> + 'i>, parent: Option<&Rc<dyn $Dyn<'i> + 'i>>, nodes: &mut usize) -> Result<T, Fail> {
            *nodes += 1;
            if t.get_rule_index() == usize::MAX {
                ensure!(t.get_child_count() == 0 && t.get_child(0).is_none(), "a leaf has children");
                let term = (**t).downcast_ref::<TerminalNode<'i, $Ctx>>();
                let err = (**t).downcast_ref::<ErrorNode<'i, $Ctx>>();
                return match (term, err) {
                    (Some(n), None) => {
                        let n: &TerminalNode<'i, $Ctx> = n;
                        let tok = n.symbol.borrow() as &<<$Ctx as ParserNodeType<'i>>::TF as TokenFactory<'i>>::Inner;
                        Ok(T::Leaf(tok.get_token_type(), t.get_text()))
                    }
                    (None, Some(_)) => Ok(T::Err(t.get_text())),
                    _ => fail("a leaf is neither a terminal nor an error node, or both"),
                };
            }
            if let Some(p) = parent {
                let tp = t.get_parent();
                ensure!(tp.is_some() && t.has_parent(), "a child has no parent link");
                // thin pointers: the same node may be reached through different vtables
                ensure!(Rc::as_ptr(&tp.unwrap()) as *const () == Rc::as_ptr(p) as *const (), "a child's parent link is not its parent");
            }
            let n = t.get_child_count();
            ensure!(t.get_children().count() == n, "get_children and get_child_count disagree");
            ensure!(t.get_child(n).is_none(), "get_child beyond the end");
            let mut v = vec![];
            for i in 0..n {
                let c = t.get_child(i).unwrap();
                v.push($fname(&c, Some(t), nodes)?);
            }
            let label: fn(&Rc<dyn $Dyn<'i> + 'i>) -> &'static str = $label;
            Ok(T::Rule(label(t), t.get_rule_index(), v))
        }
    };
}

macro_rules! listener_common {
    ($L:ident, $Ctx:ty, $Dyn:ident) => {
        struct $L(Vec<String>);
        impl<'i> ParseTreeListener<'i, $Ctx> for $L {
            fn visit_terminal(&mut self, n: &TerminalNode<'i, $Ctx>) {
                let tok = n.symbol.borrow() as &<<$Ctx as ParserNodeType<'i>>::TF as TokenFactory<'i>>::Inner;
                self.0.push(format!("t{}:{}", tok.get_token_type(), n.get_text()));
            }
            fn visit_error_node(&mut self, n: &ErrorNode<'i, $Ctx>) {
                self.0.push(format!("e:{}", n.get_text()));
            }
            fn enter_every_rule(&mut self, c: &dyn $Dyn<'i>) {
                self.0.push(format!("E{}", c.get_rule_index()));
            }
            fn exit_every_rule(&mut self, c: &dyn $Dyn<'i>) {
                self.0.push(format!("X{}", c.get_rule_index()));
            }
        }
    };
}
macro_rules! on {
    ($($m:ident $s:literal $c:ident;)*) => { $(fn $m(&mut self, _c: &$c<'i>) { self.0.push($s.to_string()); })* };
}

// ------------------------------------------------------------------------------------------------ CSV
mod csv {
    use super::*;
    use crate::gen::csvlexer::CSVLexer;
    use crate::gen::csvlistener::CSVListener;
    use crate::gen::csvparser::*;
    use crate::gen::csvvisitor::{CSVVisitor, CSVVisitorCompat};

    listener_common!(L, CSVParserContextType, CSVParserContext);
    impl<'i> CSVListener<'i> for L {
        on! { enter_csvFile "+csvFile" CsvFileContext; exit_csvFile "-csvFile" CsvFileContext; enter_hdr "+hdr" HdrContext; exit_hdr "-hdr" HdrContext;
        enter_row "+row" RowContext; exit_row "-row" RowContext; enter_field "+field" FieldContext; exit_field "-field" FieldContext; }
    }
    type Dyn<'i> = dyn CSVParserContext<'i> + 'i;
    reader!(read, CSVParserContextType, CSVParserContext, |t| ruleNames[t.get_rule_index()]);

    /// plain visitor; rows with exactly `cut` fields are not descended into
    struct V {
        ev: Vec<String>,
        cut: usize,
    }
    impl<'i> ParseTreeVisitor<'i, CSVParserContextType> for V {
        fn visit_terminal(&mut self, n: &TerminalNode<'i, CSVParserContextType>) {
            self.ev.push(format!("t:{}", n.get_text()));
        }
        fn visit_error_node(&mut self, n: &ErrorNode<'i, CSVParserContextType>) {
            self.ev.push(format!("e:{}", n.get_text()));
        }
    }
    impl<'i> CSVVisitor<'i> for V {
        fn visit_hdr(&mut self, ctx: &HdrContext<'i>) {
            self.ev.push("hdr".into());
            self.visit_children(ctx)
        }
        fn visit_row(&mut self, ctx: &RowContext<'i>) {
            self.ev.push("row".into());
            if ctx.field_all().len() != self.cut {
                self.visit_children(ctx)
            }
        }
    }
    fn vexpect(t: &T, cut: usize, out: &mut Vec<String>) {
        match t {
            T::Leaf(_, s) => out.push(format!("t:{}", s)),
            T::Err(s) => out.push(format!("e:{}", s)),
            T::Rule(n, _, v) => {
                if *n == "hdr" || *n == "row" {
                    out.push(n.to_string());
                }
                if *n == "row" && v.iter().filter(|x| matches!(x, T::Rule("field", _, _))).count() == cut {
                    return;
                }
                v.iter().for_each(|x| vexpect(x, cut, out));
            }
        }
    }
    /// value-returning visitor: aggregates texts in order, stops visiting siblings when `stop` texts are in hand
    struct C {
        tmp: Vec<String>,
        stop: usize,
    }
    impl<'i> ParseTreeVisitorCompat<'i> for C {
        type Node = CSVParserContextType;
        type Return = Vec<String>;
        fn temp_result(&mut self) -> &mut Vec<String> {
            &mut self.tmp
        }
        fn visit_terminal(&mut self, n: &TerminalNode<'i, CSVParserContextType>) -> Vec<String> {
            vec![n.get_text()]
        }
        fn visit_error_node(&mut self, n: &ErrorNode<'i, CSVParserContextType>) -> Vec<String> {
            vec![format!("!{}", n.get_text())]
        }
        fn aggregate_results(&self, mut a: Vec<String>, b: Vec<String>) -> Vec<String> {
            a.extend(b);
            a
        }
        fn should_visit_next_child(&self, _n: &Dyn<'i>, cur: &Vec<String>) -> bool {
            cur.len() < self.stop
        }
    }
    impl<'i> CSVVisitorCompat<'i> for C {
        fn visit_field(&mut self, ctx: &FieldContext<'i>) -> Vec<String> {
            let r = ParseTreeVisitorCompat::visit_children(self, ctx);
            if r.is_empty() {
                vec!["<>".into()]
            } else {
                r
            }
        }
    }
    fn cexpect(t: &T, stop: usize) -> Vec<String> {
        match t {
            T::Leaf(_, s) => vec![s.clone()],
            T::Err(s) => vec![format!("!{}", s)],
            T::Rule(n, _, v) => {
                let mut r: Vec<String> = vec![];
                for x in v {
                    if r.len() >= stop {
                        break;
                    }
                    r.extend(cexpect(x, stop));
                }
                if *n == "field" && r.is_empty() {
                    r = vec!["<>".into()];
                }
                r
            }
        }
    }

    fn text(s: &mut Src) -> String {
        let n = s.len(1, 5);
        (0..n).map(|_| *s.pick(&['a', 'b', 'Z', '0', '\'', '\t', 'é', '語', '-', ';'])).collect()
    }
    fn string(s: &mut Src) -> String {
        let n = s.len(0, 5);
        let b: String = (0..n).map(|_| *s.pick(&["a", " ", "\"\"", ",", "\n", "\r\n", "é", "𝒳", "\t", "''"])).collect();
        format!("\"{}\"", b)
    }
    struct Case {
        b: Build,
        tree: T,
        /// per row the texts of its fields
        rows: Vec<Vec<(isize, String)>>,
    }
    fn gen(s: &mut Src) -> Case {
        let mut b = Build::new();
        let mut rows = vec![];
        let mut trees = vec![];
        let ws = |s: &mut Src, b: &mut Build| {
            if s.chance(1, 4) {
                let k = s.range(1, 3);
                b.tok_ch(WS, 1, &" ".repeat(k));
            }
        };
        for _ in 0..s.len(2, 6) {
            let mut row = vec![];
            let mut kids = vec![];
            let nf = s.len(1, 5);
            for f in 0..nf {
                if f > 0 {
                    b.tok(T__0, ",");
                    kids.push(T::Leaf(T__0, ",".into()));
                }
                ws(s, &mut b);
                let (ty, t) = match s.weighted(&[4, 2, 1]) {
                    0 => (TEXT, text(s)),
                    1 => (STRING, string(s)),
                    _ => (0, String::new()),
                };
                let mut fk = vec![];
                if ty != 0 {
                    b.tok(ty, &t);
                    fk.push(T::Leaf(ty, t.clone()));
                }
                // two runs of blanks would be one token
                if ty != 0 {
                    ws(s, &mut b);
                }
                kids.push(T::Rule("field", RULE_field, fk));
                row.push((ty, t));
            }
            if s.chance(1, 3) {
                b.tok(T__1, "\r");
                kids.push(T::Leaf(T__1, "\r".into()));
            }
            b.tok(T__2, "\n");
            kids.push(T::Leaf(T__2, "\n".into()));
            trees.push(T::Rule("row", RULE_row, kids));
            rows.push(row);
        }
        b.eof();
        let rest = trees.split_off(1);
        let mut kids = vec![T::Rule("hdr", RULE_hdr, trees)];
        kids.extend(rest);
        Case { b, tree: T::Rule("csvFile", RULE_csvFile, kids), rows }
    }

    fn accessors<'i>(root: &Rc<CsvFileContextAll<'i>>, c: &Case, d: &str) -> Check {
        let all = root.row_all();
        ensure!(all.len() == c.rows.len() - 1, "{:?}: row_all has {} rows of {}", d, all.len(), c.rows.len() - 1);
        let hdr = root.hdr();
        ensure!(hdr.is_some(), "{:?}: hdr() is None", d);
        let h = hdr.unwrap().row();
        ensure!(h.is_some(), "{:?}: hdr().row() is None", d);
        let mut rows = vec![h.unwrap()];
        for i in 0..all.len() + 2 {
            let r = root.row(i);
            ensure!(r.is_some() == (i < all.len()), "{:?}: row({}) of {} is {:?}", d, i, all.len(), r.is_some());
            if let Some(r) = r {
                ensure!(Rc::ptr_eq(&r, &all[i]), "{:?}: row({}) is not row_all()[{}]", d, i, i);
                rows.push(r);
            }
        }
        for (r, want) in rows.iter().zip(&c.rows) {
            let fs = r.field_all();
            ensure!(fs.len() == want.len(), "{:?}: {} fields of {}", d, fs.len(), want.len());
            for i in 0..want.len() + 1 {
                let f = r.field(i);
                ensure!(f.is_some() == (i < want.len()), "{:?}: field({}) of {}", d, i, want.len());
                if let Some(f) = f {
                    ensure!(Rc::ptr_eq(&f, &fs[i]), "{:?}: field({}) is not field_all()[{}]", d, i, i);
                    let (ty, t) = &want[i];
                    let x = f.TEXT().map(|n| n.get_text());
                    let y = f.STRING().map(|n| n.get_text());
                    ensure!(x.as_deref() == if *ty == TEXT { Some(t.as_str()) } else { None }, "{:?}: TEXT() of field {} is {:?}", d, i, x);
                    ensure!(y.as_deref() == if *ty == STRING { Some(t.as_str()) } else { None }, "{:?}: STRING() of field {} is {:?}", d, i, y);
                    ensure!(f.get_tokens(*ty).len() == (*ty != 0) as usize, "{:?}: get_tokens of field {}", d, i);
                    // zero-copy: tokens over a &str borrow from it
                    if let Some(n) = f.TEXT() {
                        ensure!(matches!(n.symbol.text, Cow::Borrowed(_)) || n.symbol.text.len() == t.len(), "text");
                    }
                    let chain = RuleContextExt::to_string(&f, Some(&ruleNames), None);
                    let w = if Rc::ptr_eq(r, &rows[0]) { "[field row hdr csvFile]" } else { "[field row csvFile]" };
                    ensure!(chain == w, "{:?}: context chain of a field is {}", d, chain);
                }
            }
        }
        Ok(())
    }

    fn walk<'i>(root: &Rc<CsvFileContextAll<'i>>, tree: &T, s: &mut Src, d: &str) -> Check {
        let names = |t: &T| match t {
            T::Rule(n, _, _) => Some(n.to_string()),
            _ => None,
        };
        let mut want = vec![];
        events(tree, &names, &mut want);
        let l = CSVTreeWalker::walk(Box::new(L(vec![])), &**root);
        diff_events("walk", &l.0, &want, d)?;
        let cut = s.draw(4);
        let mut v = V { ev: vec![], cut };
        root.accept(&mut v);
        let mut want = vec![];
        vexpect(tree, cut, &mut want);
        diff_events(&format!("visitor that skips rows of {}", cut), &v.ev, &want, d)?;
        let stop = *s.pick(&[1000, 1, 2, 3, 5]);
        let got = C { tmp: vec![], stop }.visit(&**root);
        let want = cexpect(tree, stop);
        ensure!(got == want, "{:?}: value visitor with limit {} gives {:?}, it must give {:?}", d, stop, got, want);
        // visiting a second time changes nothing
        let mut c = C { tmp: vec![], stop };
        let a = c.visit(&**root);
        let b = c.visit(&**root);
        ensure!(a == b && a == want, "{:?}: visiting twice gives {:?} then {:?}", d, a, b);
        Ok(())
    }

    fn run<'i, I>(ts: I, bail: usize, s: &mut Src, c: &Case, bytes: bool, d: &str) -> Check
    where
        I: TokenStream<'i, TF = ArenaCommonFactory<'i>> + TidAble<'i> + 'i,
    {
        let errs = Rc::new(Cell::new(0));
        let nl = s.draw(3);
        let drop_first = s.chance(1, 2);
        macro_rules! go {
            ($p:expr) => {{
                let mut p = $p;
                p.remove_error_listeners();
                p.add_error_listener(Box::new(Count(errs.clone())));
                let mut ids = vec![];
                for _ in 0..nl {
                    ids.push(p.add_parse_listener(Box::new(L(vec![]))));
                }
                let early = if nl > 0 && drop_first { Some(p.remove_parse_listener(ids.remove(0)).0) } else { None };
                let r = p.csvFile();
                let logs: Vec<Vec<String>> = ids.into_iter().map(|id| p.remove_parse_listener(id).0).collect();
                let str_tree = r.as_ref().ok().map(|x| x.to_string_tree(&*p));
                (r, logs, str_tree, early)
            }};
        }
        let (r, logs, str_tree, early) = match bail {
            0 => go!(CSVParser::new(ts)),
            1 => go!(CSVParser::with_dyn_strategy(ts)),
            2 => go!(CSVParser::with_strategy(ts, BailErrorStrategy::new())),
            _ => {
                let mut p = CSVParser::with_strategy(ts, DefaultErrorStrategy::new());
                p.set_error_strategy(DefaultErrorStrategy::new());
                go!(p)
            }
        };
        let root = match r {
            Ok(r) => r,
            Err(e) => return fail(format!("{:?}: a correct file is refused: {}", d, e)),
        };
        ensure!(errs.get() == 0, "{:?}: a correct file gives {} errors", d, errs.get());
        let mut want = String::new();
        c.tree.lisp(&mut want);
        let got = str_tree.unwrap();
        ensure!(got == want, "{:?}: tree is\n{}\nby the grammar it is\n{}", d, got, want);
        ensure!(early.map_or(true, |e| e.is_empty()), "{:?}: a removed listener got events", d);
        let names = |t: &T| match t {
            T::Rule(n, _, _) => Some(n.to_string()),
            _ => None,
        };
        let mut we = vec![];
        events(&c.tree, &names, &mut we);
        for l in &logs {
            diff_events("parse listener", l, &we, d)?;
        }
        let up: Rc<Dyn<'i>> = root.clone();
        let mut n = 0;
        let t = read(&up, None, &mut n)?;
        ensure!(t == c.tree, "{:?}: tree read through the API is {:?}", d, t);
        let mut w = String::new();
        t.text(&mut w);
        ensure!(root.get_text() == w, "{:?}: get_text is {:?}", d, root.get_text());
        // rows cover their tokens: offsets of start and stop
        let toks = if bytes { c.b.in_bytes() } else { c.b.toks.clone() };
        let ends: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].ty == T__2).collect();
        let mut first = 0;
        for (i, e) in ends.iter().enumerate().skip(1) {
            first = ends[i - 1] + 1;
            let _ = first;
            while toks[first].ch != 0 {
                first += 1;
            }
            let r = root.row(i - 1).unwrap();
            ensure!(tk(&*r.start()) == toks[first] && tk(&*r.stop()) == toks[*e], "{:?}: row {} starts at {:?} and stops at {:?}", d, i, tk(&*r.start()), tk(&*r.stop()));
            let iv = r.get_source_interval();
            ensure!(iv == Interval { a: first as isize, b: *e as isize }, "{:?}: row {} has interval {:?}", d, i, iv);
        }
        accessors(&root, c, d)?;
        walk(&root, &c.tree, s, d)
    }

    pub fn valid(s: &mut Src, st: &mut Stats) -> Check {
        let c = gen(s);
        let d = c.b.text.clone();
        let text: &str = &c.b.text;
        let cps: Vec<u32> = text.chars().map(|c| c as u32).collect();
        let tf = ArenaCommonFactory::default();
        let (got, e) = guarded("lex", || lex_all!(CSVLexer::new_with_token_factory(InputStream::new(text), &tf)))?;
        same("lexing", &got, &c.b.in_bytes(), &d)?;
        ensure!(e == 0, "{:?}: {} lexical errors", d, e);
        let how = s.draw(4);
        let bail = s.draw(4);
        match how {
            0 => guarded("parse", || run(CommonTokenStream::new(CSVLexer::new_with_token_factory(InputStream::new(text), &tf)), bail, s, &c, true, &d))??,
            _ => {
                // nothing is hidden in an unbuffered stream: inputs with blanks are for the buffered one
                if c.b.toks.iter().any(|t| t.ch != 0) {
                    guarded("parse", || run(CommonTokenStream::new(CSVLexer::new_with_token_factory(InputStream::new(&cps[..]), &tf)), bail, s, &c, false, &d))??
                } else if how == 1 {
                    guarded("parse", || run(UnbufferedTokenStream::new_buffered(CSVLexer::new_with_token_factory(InputStream::new(text), &tf)), bail, s, &c, true, &d))??
                } else {
                    guarded("parse", || run(UnbufferedTokenStream::new_unbuffered(CSVLexer::new_with_token_factory(InputStream::new(text), &tf)), bail, s, &c, true, &d))??
                }
            }
        }
        st.class("CSV files");
        if c.rows.iter().map(|r| r.len()).sum::<usize>() >= 3 {
            st.nontrivial(&d);
            st.sample(|| format!("CSV {:?}", d));
        }
        Ok(())
    }

    pub fn damaged(s: &mut Src, st: &mut Stats) -> Check {
        let c = gen(s);
        let mut v: Vec<char> = c.b.text.chars().collect();
        for _ in 0..s.range(1, 3) {
            let k = s.draw(v.len() + 1);
            match s.draw(3) {
                0 if k < v.len() => {
                    v.remove(k);
                }
                1 => v.insert(k, *s.pick(&[',', '\n', '"', 'a', ' ', '\r', '\u{e9}'])),
                _ => v.truncate(k),
            }
        }
        let text: String = v.into_iter().collect();
        let d = text.clone();
        let tf = ArenaCommonFactory::default();
        let (toks, lerr) = guarded("lex", || lex_all!(CSVLexer::new_with_token_factory(InputStream::new(&*text), &tf)))?;
        let errs = Rc::new(Cell::new(0));
        let (root, log, str_tree) = guarded("parse", || {
            let mut lexer = CSVLexer::new_with_token_factory(InputStream::new(&*text), &tf);
            lexer.remove_error_listeners();
            let mut p = CSVParser::new(CommonTokenStream::new(lexer));
            p.remove_error_listeners();
            p.add_error_listener(Box::new(Count(errs.clone())));
            let id = p.add_parse_listener(Box::new(L(vec![])));
            let r = p.csvFile();
            let log = p.remove_parse_listener(id).0;
            let st = r.as_ref().ok().map(|x| x.to_string_tree(&*p));
            (r, log, st)
        })?;
        let root = match root {
            Ok(r) => r,
            Err(e) => return fail(format!("{:?}: the default strategy returns {}", d, e)),
        };
        let up: Rc<Dyn> = root.clone();
        let mut n = 0;
        let t = read(&up, None, &mut n)?;
        let mut lisp = String::new();
        t.lisp(&mut lisp);
        ensure!(str_tree.as_deref() == Some(&lisp[..]), "{:?}: to_string_tree is {:?}, the tree is {}", d, str_tree, lisp);
        ensure!(errs.get() > 0 || !t.has_err(), "{:?}: an error node without a report: {}", d, lisp);
        let names = |t: &T| match t {
            T::Rule(n, _, _) => Some(n.to_string()),
            _ => None,
        };
        let mut we = vec![];
        events(&t, &names, &mut we);
        // tokens conjured up by recovery are added to the tree without an event
        we.retain(|e| !e.starts_with("e:<missing"));
        diff_events("parse listener", &log, &we, &d)?;
        walk(&root, &t, s, &d)?;
        // without errors the tree covers the visible tokens up to where the file ends
        if errs.get() == 0 {
            let vis: Vec<&Tk> = toks.iter().filter(|t| t.ch == 0).collect();
            let mut w = String::new();
            t.text(&mut w);
            let have: String = vis.iter().take(t.leaves()).map(|t| t.text.clone()).collect();
            ensure!(w == have, "{:?}: accepted, but the tree has text {:?}", d, w);
            let rows = t.count("row");
            ensure!(rows >= 2, "{:?}: accepted with {} rows", d, rows);
        }
        st.class("damaged CSV files");
        st.class_if(lerr > 0, "with lexical errors");
        st.class_if(errs.get() > 0, "with syntax errors");
        if errs.get() > 0 {
            st.nontrivial(&d);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- expressions
/// operator-precedence expression: the generated token list and the tree the grammar's precedences give it
#[derive(Clone, Debug)]
enum X {
    Atom(bool, String),
    Paren(Box<X>),
    Bin(String, Box<X>, Box<X>),
    Suf(String, Box<X>),
}
struct Climb<'a> {
    t: &'a [String],
    i: usize,
    prec: fn(&str) -> Option<(usize, bool)>,
}
impl<'a> Climb<'a> {
    fn expr(&mut self, min: usize) -> X {
        let t = self.t[self.i].clone();
        self.i += 1;
        let mut x = if t == "(" {
            let y = self.expr(0);
            self.i += 1;
            X::Paren(Box::new(y))
        } else {
            X::Atom(t.chars().next().unwrap().is_ascii_digit(), t)
        };
        while let Some((p, suffix)) = self.t.get(self.i).and_then(|o| (self.prec)(o)) {
            if p < min {
                break;
            }
            let o = self.t[self.i].clone();
            self.i += 1;
            x = if suffix {
                X::Suf(o, Box::new(x))
            } else {
                let r = self.expr(p + 1);
                X::Bin(o, Box::new(x), Box::new(r))
            };
        }
        x
    }
}
fn gen_tokens(s: &mut Src, out: &mut Vec<String>, bins: &[&str], sufs: &[&str], parens: bool, ids: bool, depth: usize) {
    let n = s.len(1, if depth == 0 { 6 } else { 3 });
    for i in 0..n {
        if i > 0 {
            out.push(s.pick(bins).to_string());
        }
        if parens && depth < 3 && s.chance(1, 6) {
            out.push("(".into());
            gen_tokens(s, out, bins, sufs, parens, ids, depth + 1);
            out.push(")".into());
        } else if ids && s.chance(1, 2) {
            out.push(s.pick(&["a", "b", "xyz", "q"]).to_string());
        } else {
            out.push(s.pick(&["1", "2", "30", "007"]).to_string());
        }
        if !sufs.is_empty() {
            while s.chance(1, 5) {
                out.push(s.pick(sufs).to_string());
            }
        }
    }
}

mod labels {
    use super::*;
    use crate::gen::labelslexer::LabelsLexer;
    use crate::gen::labelslistener::LabelsListener;
    use crate::gen::labelsparser::*;

    listener_common!(L, LabelsParserContextType, LabelsParserContext);
    impl<'i> LabelsListener<'i> for L {
        on! { enter_s "+s" SContext; exit_s "-s" SContext; enter_add "+add" AddContext; exit_add "-add" AddContext;
        enter_parens "+parens" ParensContext; exit_parens "-parens" ParensContext; enter_mult "+mult" MultContext; exit_mult "-mult" MultContext;
        enter_dec "+dec" DecContext; exit_dec "-dec" DecContext; enter_inc "+inc" IncContext; exit_inc "-inc" IncContext;
        enter_anID "+anID" AnIDContext; exit_anID "-anID" AnIDContext; enter_anInt "+anInt" AnIntContext; exit_anInt "-anInt" AnIntContext; }
    }
    type Dyn<'i> = dyn LabelsParserContext<'i> + 'i;
    fn label<'i>(t: &Rc<Dyn<'i>>) -> &'static str {
        match (**t).downcast_ref::<EContextAll<'i>>() {
            None => "s",
            Some(EContextAll::AddContext(_)) => "add",
            Some(EContextAll::ParensContext(_)) => "parens",
            Some(EContextAll::MultContext(_)) => "mult",
            Some(EContextAll::DecContext(_)) => "dec",
            Some(EContextAll::AnIDContext(_)) => "anID",
            Some(EContextAll::AnIntContext(_)) => "anInt",
            Some(EContextAll::IncContext(_)) => "inc",
            Some(EContextAll::Error(_)) => "",
        }
    }
    reader!(read, LabelsParserContextType, LabelsParserContext, label);

    /// labelsparser.rs was generated by an older template whose labelled contexts send no exit events;
    /// VisitorCalc's, generated by the present one, do
    fn entries(ev: &[String]) -> Vec<String> {
        ev.iter().filter(|e| !e.starts_with('-') && !e.starts_with('X')).cloned().collect()
    }
    fn ty(t: &str) -> isize {
        match t {
            "*" => T__0,
            "+" => T__1,
            "(" => T__2,
            ")" => T__3,
            "++" => T__4,
            "--" => T__5,
            _ if t.chars().next().unwrap().is_ascii_digit() => INT,
            _ => ID,
        }
    }
    fn leaf(t: &str) -> T {
        T::Leaf(ty(t), t.to_string())
    }
    fn tree(x: &X) -> T {
        let (n, v) = match x {
            X::Atom(true, t) => ("anInt", vec![leaf(t)]),
            X::Atom(false, t) => ("anID", vec![leaf(t)]),
            X::Paren(y) => ("parens", vec![leaf("("), tree(y), leaf(")")]),
            X::Bin(o, a, b) => (if o == "*" { "mult" } else { "add" }, vec![tree(a), leaf(o), tree(b)]),
            X::Suf(o, a) => (if o == "++" { "inc" } else { "dec" }, vec![tree(a), leaf(o)]),
        };
        T::Rule(n, RULE_e, v)
    }
    fn lisp(x: &T) -> String {
        // the labels do not show in the tree
        match x {
            T::Rule(_, i, v) => format!("({} {})", if *i == RULE_s { "s" } else { "e" }, v.iter().map(lisp).collect::<Vec<_>>().join(" ")),
            T::Leaf(_, s) | T::Err(s) => s.clone(),
        }
    }
    fn value(x: &X) -> String {
        match x {
            X::Atom(_, t) => t.clone(),
            X::Paren(y) => value(y),
            X::Bin(o, a, b) => format!("{} {} {}", o, value(a), value(b)),
            X::Suf(o, a) => format!(" {}{}", o, value(a)),
        }
    }
    fn text(x: &X) -> String {
        match x {
            X::Atom(_, t) => t.clone(),
            X::Paren(y) => format!("({})", text(y)),
            X::Bin(o, a, b) => format!("{}{}{}", text(a), o, text(b)),
            X::Suf(o, a) => format!("{}{}", text(a), o),
        }
    }
    /// labels, accessors, return values and variants of a node and below
    fn node<'i>(e: &Rc<EContextAll<'i>>, x: &X, d: &str) -> Check {
        ensure!(e.get_v() == &value(x), "{:?}: $v is {:?}, it must be {:?}", d, e.get_v(), value(x));
        ensure!(e.get_text() == text(x), "{:?}: text is {:?}, it must be {:?}", d, e.get_text(), text(x));
        let bad = |what: &str| -> Check { fail(format!("{:?}: {} of {:?}", d, what, text(x))) };
        macro_rules! kid {
            ($n:literal, $l:expr, $acc:expr, $x:expr) => {{
                let l: &Option<Rc<EContextAll<'i>>> = $l;
                let a: Option<Rc<EContextAll<'i>>> = $acc;
                match (l, a) {
                    (Some(l), Some(a)) if Rc::ptr_eq(l, &a) => node(l, $x, d)?,
                    _ => return bad(concat!("label ", $n, " is not the labelled child")),
                }
            }};
        }
        match (x, &**e) {
            (X::Atom(true, t), EContextAll::AnIntContext(c)) => {
                ensure!(c.INT.as_ref().map(|n| n.get_text().to_string()).as_ref() == Some(t), "{:?}: label INT of {}", d, t);
                ensure!(c.INT().map(|n| n.get_text()).as_ref() == Some(t), "{:?}: INT() of {}", d, t);
            }
            (X::Atom(false, t), EContextAll::AnIDContext(c)) => {
                ensure!(c.ID.as_ref().map(|n| n.get_text().to_string()).as_ref() == Some(t), "{:?}: label ID of {}", d, t);
                ensure!(c.ID().map(|n| n.get_text()).as_ref() == Some(t), "{:?}: ID() of {}", d, t);
            }
            (X::Paren(y), EContextAll::ParensContext(c)) => kid!("x", &c.x, c.e(), y),
            (X::Bin(o, a, b), EContextAll::MultContext(c)) if o == "*" => {
                ensure!(c.op.as_ref().map(|n| n.get_token_type()) == Some(T__0), "{:?}: label op", d);
                ensure!(c.e_all().len() == 2 && c.e(2).is_none(), "{:?}: e_all of a product", d);
                kid!("a", &c.a, c.e(0), a);
                kid!("b", &c.b, c.e(1), b);
            }
            (X::Bin(o, a, b), EContextAll::AddContext(c)) if o == "+" => {
                ensure!(c.e_all().len() == 2 && c.e(2).is_none(), "{:?}: e_all of a sum", d);
                kid!("a", &c.a, c.e(0), a);
                kid!("b", &c.b, c.e(1), b);
            }
            (X::Suf(o, a), EContextAll::IncContext(c)) if o == "++" => kid!("x", &c.x, c.e(), a),
            (X::Suf(o, a), EContextAll::DecContext(c)) if o == "--" => kid!("x", &c.x, c.e(), a),
            _ => return bad("wrong alternative"),
        }
        Ok(())
    }
    fn prec(o: &str) -> Option<(usize, bool)> {
        match o {
            "*" => Some((7, false)),
            "+" => Some((6, false)),
            "++" => Some((3, true)),
            "--" => Some((2, true)),
            _ => None,
        }
    }
    pub fn valid(s: &mut Src, st: &mut Stats) -> Check {
        let mut v = vec![];
        gen_tokens(s, &mut v, &["*", "+"], &["++", "--"], true, true, 0);
        // the suffixes that no enclosing level accepts end the expression: the reference parser stops there too
        let mut cl = Climb { t: &v, i: 0, prec };
        let x = cl.expr(0);
        let used = cl.i;
        ensure!(used == v.len(), "harness: {:?} not consumed", v);
        let mut b = Build::new();
        for t in &v {
            // "+" then "++" would read as "++" then "+"; a number and an identifier never meet
            let need = b.text.ends_with('+') || b.text.ends_with('-');
            if need || s.chance(1, 3) {
                let w = *s.pick(&[" ", "\n", "  "]);
                b.skip(w);
            }
            b.tok(ty(t), t);
        }
        b.eof();
        let d = b.text.clone();
        let (got, e) = guarded("lex", || lex_all!(LabelsLexer::new(InputStream::new(&*b.text))))?;
        same("lexing", &got, &b.in_bytes(), &d)?;
        ensure!(e == 0, "{:?}: {} lexical errors", d, e);
        let bail = s.chance(1, 3);
        let whole = s.chance(1, 2);
        let errs = Rc::new(Cell::new(0));
        let cps: Vec<u32> = b.text.chars().map(|c| c as u32).collect();
        guarded("parse", || -> Check {
            let ts = CommonTokenStream::new(LabelsLexer::new(InputStream::new(&cps[..])));
            let mut p = if bail { LabelsParser::with_strategy(ts, Box::new(BailErrorStrategy::new()) as Box<_>) } else { LabelsParser::with_dyn_strategy(ts) };
            p.remove_error_listeners();
            p.add_error_listener(Box::new(Count(errs.clone())));
            let names = |t: &T| match t {
                T::Rule(n, _, _) if !n.is_empty() => Some(n.to_string()),
                _ => None,
            };
            let mut we = vec![];
            if whole {
                let r = match p.s() {
                    Ok(r) => r,
                    Err(e) => return fail(format!("{:?}: refused: {}", d, e)),
                };
                let want = T::Rule("s", RULE_s, vec![tree(&x)]);
                ensure!(r.to_string_tree(&*p) == lisp(&want), "{:?}: tree is\n{}\nby the precedences it is\n{}", d, r.to_string_tree(&*p), lisp(&want));
                let up: Rc<Dyn> = r.clone();
                let t = read(&up, None, &mut 0)?;
                ensure!(t == want, "{:?}: labelled tree is {:?}, it must be {:?}", d, t, want);
                events(&want, &names, &mut we);
                let l = LabelsTreeWalker::walk(Box::new(L(vec![])), &*r);
                diff_events("walk", &entries(&l.0), &entries(&we), &d)?;
                match (&r.q, r.e()) {
                    (Some(q), Some(e)) if Rc::ptr_eq(q, &e) => node(q, &x, &d)?,
                    _ => return fail(format!("{:?}: label q is not the child e", d)),
                }
            } else {
                let r = match p.e() {
                    Ok(r) => r,
                    Err(e) => return fail(format!("{:?}: refused: {}", d, e)),
                };
                ensure!(r.to_string_tree(&*p) == lisp(&tree(&x)), "{:?}: tree is {}, by the precedences {}", d, r.to_string_tree(&*p), lisp(&tree(&x)));
                events(&tree(&x), &names, &mut we);
                let l = LabelsTreeWalker::walk(Box::new(L(vec![])), &*r);
                diff_events("walk", &entries(&l.0), &entries(&we), &d)?;
                node(&r, &x, &d)?;
            }
            ensure!(errs.get() == 0, "{:?}: {} errors", d, errs.get());
            Ok(())
        })??;
        st.class("labelled expressions");
        if v.len() >= 4 {
            st.nontrivial(&d);
            st.sample(|| format!("Labels {:?}", d));
        }
        Ok(())
    }

    /// any input gives a tree that holds together
    pub fn any(s: &mut Src, st: &mut Stats) -> Check {
        let n = s.len(0, 12);
        let text: String = (0..n).map(|_| *s.pick(&["a", "1", "(", ")", "+ ", "*", "++ ", "-- ", " ", "?", "12", "+"])).collect();
        let d = text.clone();
        let errs = Rc::new(Cell::new(0));
        guarded("parse", || -> Check {
            let mut lx = LabelsLexer::new(InputStream::new(&*text));
            lx.remove_error_listeners();
            let mut p = LabelsParser::new(CommonTokenStream::new(lx));
            p.remove_error_listeners();
            p.add_error_listener(Box::new(Count(errs.clone())));
            let r = match p.s() {
                Ok(r) => r,
                Err(e) => return fail(format!("{:?}: the default strategy returns {}", d, e)),
            };
            let up: Rc<Dyn> = r.clone();
            let t = read(&up, None, &mut 0)?;
            ensure!(errs.get() > 0 || !t.has_err(), "{:?}: an error node without a report: {}", d, lisp(&t));
            let names = |t: &T| match t {
                T::Rule(n, _, _) if !n.is_empty() => Some(n.to_string()),
                _ => None,
            };
            let mut we = vec![];
            events(&t, &names, &mut we);
            let l = LabelsTreeWalker::walk(Box::new(L(vec![])), &*r);
            diff_events("walk", &entries(&l.0), &entries(&we), &d)
        })??;
        st.class("arbitrary Labels inputs");
        if errs.get() > 0 && n >= 3 {
            st.nontrivial(&d);
        }
        Ok(())
    }
}

mod calc {
    use super::*;
    use crate::gen::visitorcalclexer::VisitorCalcLexer;
    use crate::gen::visitorcalclistener::VisitorCalcListener;
    use crate::gen::visitorcalcparser::*;
    use crate::gen::visitorcalcvisitor::VisitorCalcVisitorCompat;

    listener_common!(L, VisitorCalcParserContextType, VisitorCalcParserContext);
    impl<'i> VisitorCalcListener<'i> for L {
        on! { enter_s "+s" SContext; exit_s "-s" SContext; enter_add "+add" AddContext; exit_add "-add" AddContext;
        enter_number "+number" NumberContext; exit_number "-number" NumberContext; enter_multiply "+multiply" MultiplyContext; exit_multiply "-multiply" MultiplyContext; }
    }
    type Dyn<'i> = dyn VisitorCalcParserContext<'i> + 'i;
    fn label<'i>(t: &Rc<Dyn<'i>>) -> &'static str {
        match (**t).downcast_ref::<ExprContextAll<'i>>() {
            None => "s",
            Some(ExprContextAll::AddContext(_)) => "add",
            Some(ExprContextAll::NumberContext(_)) => "number",
            Some(ExprContextAll::MultiplyContext(_)) => "multiply",
            Some(ExprContextAll::Error(_)) => "",
        }
    }
    reader!(read, VisitorCalcParserContextType, VisitorCalcParserContext, label);

    struct Show(String);
    impl<'i> ParseTreeVisitorCompat<'i> for Show {
        type Node = VisitorCalcParserContextType;
        type Return = String;
        fn temp_result(&mut self) -> &mut String {
            &mut self.0
        }
        fn visit_terminal(&mut self, n: &TerminalNode<'i, Self::Node>) -> String {
            n.get_text()
        }
        fn visit_error_node(&mut self, n: &ErrorNode<'i, Self::Node>) -> String {
            format!("!{}", n.get_text())
        }
        fn aggregate_results(&self, a: String, b: String) -> String {
            a + &b
        }
    }
    impl<'i> VisitorCalcVisitorCompat<'i> for Show {
        fn visit_add(&mut self, c: &AddContext<'i>) -> String {
            let r = ParseTreeVisitorCompat::visit_children(self, c);
            format!("({})", r)
        }
        fn visit_multiply(&mut self, c: &MultiplyContext<'i>) -> String {
            let a = c.expr(0).map(|e| self.visit(&*e)).unwrap_or_default();
            let b = c.expr(1).map(|e| self.visit(&*e)).unwrap_or_default();
            let o = match (c.MUL().is_some(), c.DIV().is_some()) {
                (true, false) => "*",
                (false, true) => "/",
                _ => "?",
            };
            format!("[{}{}{}]", a, o, b)
        }
    }
    fn show(x: &X) -> String {
        match x {
            X::Bin(o, a, b) if o == "+" || o == "-" => format!("({}{}{})", show(a), o, show(b)),
            X::Bin(o, a, b) => format!("[{}{}{}]", show(a), o, show(b)),
            X::Atom(_, t) => t.clone(),
            _ => unreachable!(),
        }
    }
    fn ty(t: &str) -> isize {
        match t {
            "*" => MUL,
            "/" => DIV,
            "+" => ADD,
            "-" => SUB,
            _ => INT,
        }
    }
    fn leaf(t: &str) -> T {
        T::Leaf(ty(t), t.to_string())
    }
    fn tree(x: &X) -> T {
        let (n, v) = match x {
            X::Bin(o, a, b) => (if o == "+" || o == "-" { "add" } else { "multiply" }, vec![tree(a), leaf(o), tree(b)]),
            X::Atom(_, t) => ("number", vec![leaf(t)]),
            _ => unreachable!(),
        };
        T::Rule(n, RULE_expr, v)
    }
    fn lisp(x: &T) -> String {
        match x {
            T::Rule(_, i, v) => {
                let n = if *i == RULE_s { "s" } else { "expr" };
                if v.is_empty() {
                    n.to_string()
                } else {
                    format!("({} {})", n, v.iter().map(lisp).collect::<Vec<_>>().join(" "))
                }
            }
            T::Leaf(_, s) | T::Err(s) => s.clone(),
        }
    }
    fn prec(o: &str) -> Option<(usize, bool)> {
        match o {
            "*" | "/" => Some((2, false)),
            "+" | "-" => Some((1, false)),
            _ => None,
        }
    }
    fn names(t: &T) -> Option<String> {
        match t {
            T::Rule(n, _, _) if !n.is_empty() => Some(n.to_string()),
            _ => None,
        }
    }
    pub fn check(s: &mut Src, st: &mut Stats) -> Check {
        let mut v = vec![];
        gen_tokens(s, &mut v, &["*", "/", "+", "-"], &[], false, false, 0);
        let x = Climb { t: &v, i: 0, prec }.expr(0);
        let hurt = s.chance(1, 3);
        if hurt {
            for _ in 0..s.range(1, 2) {
                let k = s.draw(v.len() + 1);
                match s.draw(3) {
                    0 if k < v.len() => {
                        v.remove(k);
                    }
                    1 => v.insert(k, s.pick(&["*", "-", "7"]).to_string()),
                    _ => v.truncate(k),
                }
            }
        }
        let mut b = Build::new();
        for t in &v {
            let need = b.text.chars().last().map_or(false, |c| c.is_ascii_digit()) && t.chars().all(|c| c.is_ascii_digit());
            if need || s.chance(1, 3) {
                b.tok_ch(WS, 1, s.pick(&[" ", "\t ", "  "]));
            }
            b.tok(ty(t), t);
        }
        b.eof();
        let d = b.text.clone();
        let (got, e) = guarded("lex", || lex_all!(VisitorCalcLexer::new(InputStream::new(&*b.text))))?;
        same("lexing", &got, &b.in_bytes(), &d)?;
        ensure!(e == 0, "{:?}: {} lexical errors", d, e);
        let errs = Rc::new(Cell::new(0));
        guarded("parse", || -> Check {
            let mut p = VisitorCalcParser::new(CommonTokenStream::new(VisitorCalcLexer::new(InputStream::new(&*b.text))));
            p.remove_error_listeners();
            p.add_error_listener(Box::new(Count(errs.clone())));
            let r = match p.s() {
                Ok(r) => r,
                Err(e) => return fail(format!("{:?}: the default strategy returns {}", d, e)),
            };
            let up: Rc<Dyn> = r.clone();
            let t = read(&up, None, &mut 0)?;
            ensure!(r.to_string_tree(&*p) == lisp(&t), "{:?}: to_string_tree is {}, the tree is {}", d, r.to_string_tree(&*p), lisp(&t));
            let mut we = vec![];
            events(&t, &names, &mut we);
            let l = VisitorCalcTreeWalker::walk(Box::new(L(vec![])), &*r);
            diff_events("walk", &l.0, &we, &d)?;
            let has_eof = matches!(&t, T::Rule(_, _, v) if matches!(v.last(), Some(T::Leaf(TOKEN_EOF, _))));
            ensure!(r.EOF().is_some() == has_eof, "{:?}: EOF() is {}", d, r.EOF().is_some());
            ensure!(r.expr().is_some() == matches!(&t, T::Rule(_, _, v) if v.iter().any(|c| matches!(c, T::Rule(..)))), "{:?}: expr()", d);
            if !hurt {
                let want = T::Rule("s", RULE_s, vec![tree(&x), T::Leaf(TOKEN_EOF, "<EOF>".into())]);
                ensure!(t == want, "{:?}: tree is {:?}, by the precedences it is {:?}", d, t, want);
                ensure!(errs.get() == 0, "{:?}: {} errors", d, errs.get());
                let got = Show(String::new()).visit(&*r);
                ensure!(got == show(&x) + "<EOF>", "{:?}: visitor computes {:?}, it must be {:?}", d, got, show(&x) + "<EOF>");
            } else {
                let got = Show(String::new()).visit(&*r);
                let want = from_tree(&t);
                ensure!(got == want, "{:?}: visitor computes {:?}, it must be {:?}", d, got, want);
            }
            Ok(())
        })??;
        st.class("calculator inputs");
        st.class_if(errs.get() > 0, "with syntax errors");
        if v.len() >= 3 {
            st.nontrivial(&d);
        }
        Ok(())
    }
    fn from_tree(t: &T) -> String {
        match t {
            T::Leaf(_, s) => s.clone(),
            T::Err(s) => format!("!{}", s),
            T::Rule("add", _, v) => format!("({})", v.iter().map(from_tree).collect::<String>()),
            T::Rule("multiply", _, v) => {
                let e: Vec<String> = v.iter().filter(|c| matches!(c, T::Rule(..))).map(from_tree).collect();
                let m = v.iter().any(|c| matches!(c, T::Leaf(MUL, _)));
                let dv = v.iter().any(|c| matches!(c, T::Leaf(DIV, _)));
                let o = match (m, dv) {
                    (true, false) => "*",
                    (false, true) => "/",
                    _ => "?",
                };
                format!("[{}{}{}]", e.get(0).cloned().unwrap_or_default(), o, e.get(1).cloned().unwrap_or_default())
            }
            T::Rule(_, _, v) => v.iter().map(from_tree).collect(),
        }
    }
}

// ------------------------------------------------------------------------------------------- lists
mod lists {
    use super::*;
    use crate::gen::referencetoatnlexer::ReferenceToATNLexer;
    use crate::gen::referencetoatnparser as refp;
    use crate::gen::referencetoatnparser::{AContextAttrs as _, ReferenceToATNParser};
    use crate::gen::simplelrlexer::SimpleLRLexer;
    use crate::gen::simplelrlistener::SimpleLRListener;
    use crate::gen::simplelrparser::*;

    listener_common!(L, SimpleLRParserContextType, SimpleLRParserContext);
    impl<'i> SimpleLRListener<'i> for L {
        on! { enter_s "+s" SContext; exit_s "-s" SContext; enter_a "+a" AContext; exit_a "-a" AContext; }
    }
    type Dyn<'i> = dyn SimpleLRParserContext<'i> + 'i;
    reader!(read, SimpleLRParserContextType, SimpleLRParserContext, |t| ruleNames[t.get_rule_index()]);

    pub fn simple_lr(s: &mut Src, st: &mut Stats) -> Check {
        let n = s.len(1, 8);
        let ids: Vec<String> = (0..n).map(|_| s.pick(&["x", "yy", "z", "abc"]).to_string()).collect();
        let mut b = Build::new();
        for t in &ids {
            b.skip(s.pick(&[" ", "\n", " \n "]));
            b.tok(ID, t);
        }
        b.eof();
        let d = b.text.clone();
        let mut t = T::Rule("a", RULE_a, vec![T::Leaf(ID, ids[0].clone())]);
        for x in &ids[1..] {
            t = T::Rule("a", RULE_a, vec![t, T::Leaf(ID, x.clone())]);
        }
        let whole = s.chance(1, 2);
        if whole {
            t = T::Rule("s", RULE_s, vec![t]);
        }
        let names = |t: &T| match t {
            T::Rule(n, _, _) => Some(n.to_string()),
            _ => None,
        };
        let mut we = vec![];
        events(&t, &names, &mut we);
        // while parsing, a level of the recursion is entered when it is known to be needed:
        // after what it wraps, which has been left by then
        let mut pe: Vec<String> = vec![];
        if whole {
            pe.extend(["E0".to_string(), "+s".into()]);
        }
        pe.extend([format!("E{}", RULE_a), "+a".into(), format!("t{}:{}", ID, ids[0])]);
        for x in &ids[1..] {
            pe.extend(["-a".to_string(), format!("X{}", RULE_a), format!("E{}", RULE_a), "+a".into(), format!("t{}:{}", ID, x)]);
        }
        pe.extend(["-a".to_string(), format!("X{}", RULE_a)]);
        if whole {
            pe.extend(["-s".to_string(), "X0".into()]);
        }
        guarded("parse", || -> Check {
            let mut p = SimpleLRParser::new(CommonTokenStream::new(SimpleLRLexer::new(InputStream::new(&*b.text))));
            let id0 = p.add_parse_listener(Box::new(L(vec![])));
            let id1 = p.add_parse_listener(Box::new(L(vec![])));
            let l0 = p.remove_parse_listener(id0);
            ensure!(l0.0.is_empty(), "{:?}: a removed listener has events", d);
            let mut lisp = String::new();
            t.lisp(&mut lisp);
            let (up, got): (Rc<Dyn>, String) = if whole {
                let r = match p.s() {
                    Ok(r) => r,
                    Err(e) => return fail(format!("{:?}: refused: {}", d, e)),
                };
                let l = SimpleLRTreeWalker::walk(Box::new(L(vec![])), &*r);
                diff_events("walk", &l.0, &we, &d)?;
                let a = r.a();
                ensure!(a.is_some(), "{:?}: a() is None", d);
                (r.clone(), r.to_string_tree(&*p))
            } else {
                let r = match p.a() {
                    Ok(r) => r,
                    Err(e) => return fail(format!("{:?}: refused: {}", d, e)),
                };
                let l = SimpleLRTreeWalker::walk(Box::new(L(vec![])), &*r);
                diff_events("walk", &l.0, &we, &d)?;
                let mut cur = r.clone();
                for i in (0..ids.len()).rev() {
                    ensure!(cur.ID().map(|n| n.get_text()).as_ref() == Some(&ids[i]), "{:?}: ID() at depth {}", d, ids.len() - i);
                    match cur.a() {
                        Some(n) if i > 0 => cur = n,
                        None if i == 0 => {}
                        _ => return fail(format!("{:?}: a() at depth {}", d, ids.len() - i)),
                    }
                }
                (r.clone(), r.to_string_tree(&*p))
            };
            ensure!(got == lisp, "{:?}: tree is {}, by the grammar {}", d, got, lisp);
            let rt = read(&up, None, &mut 0)?;
            ensure!(rt == t, "{:?}: tree read through the API is {:?}", d, rt);
            let l1 = p.remove_parse_listener(id1);
            diff_events("parse listener", &l1.0, &pe, &d)
        })??;
        st.class("left-recursive lists");
        if n >= 3 {
            st.nontrivial(&d);
        }
        Ok(())
    }

    static FACTORY: OwningTokenFactory = OwningTokenFactory;
    pub fn reference(s: &mut Src, st: &mut Stats) -> Check {
        let n = s.len(0, 8);
        let words: Vec<String> = (0..n).map(|_| s.pick(&["x", "12", "ab", "3", "007"]).to_string()).collect();
        let mut text = String::new();
        for w in &words {
            text.push_str(s.pick(&[" ", "\n", "  "]));
            text.push_str(w);
        }
        let d = text.clone();
        // the input and the lexer are gone before the tree is looked at
        let r = guarded("parse", || {
            let lexer = ReferenceToATNLexer::new_with_token_factory(InputStream::new_owned(text.into_boxed_str()), &FACTORY);
            let mut p = ReferenceToATNParser::new(CommonTokenStream::new(lexer));
            let r = p.a();
            r.map(|r| {
                let t = r.to_string_tree(&*p);
                (r, t)
            })
        })?;
        let (r, t) = match r {
            Ok(x) => x,
            Err(e) => return fail(format!("{:?}: refused: {}", d, e)),
        };
        let want = if n == 0 { "a".to_string() } else { format!("(a {})", words.join(" ")) };
        ensure!(t == want, "{:?}: tree is {}, by the grammar {}", d, t, want);
        for (is_num, ttype) in [(true, refp::ATN), (false, refp::ID)] {
            let w: Vec<&String> = words.iter().filter(|w| w.chars().next().unwrap().is_ascii_digit() == is_num).collect();
            for i in 0..w.len() + 2 {
                let x = if is_num { r.ATN(i) } else { r.ID(i) };
                let x = x.map(|n| n.get_text());
                ensure!(x.as_ref() == w.get(i).copied(), "{:?}: accessor {} of type {} gives {:?}", d, i, ttype, x);
            }
            let toks: Vec<String> = r.get_tokens(ttype).iter().map(|n| n.get_text()).collect();
            ensure!(toks.iter().collect::<Vec<_>>() == w, "{:?}: get_tokens({}) gives {:?}", d, ttype, toks);
            let all: Vec<String> = (if is_num { r.ATN_all() } else { r.ID_all() }).iter().map(|n| n.get_text()).collect();
            if all.iter().collect::<Vec<_>>() != w {
                ensure!(all == words, "{:?}: {}_all() gives {:?}", d, if is_num { "ATN" } else { "ID" }, all);
                st.known("token-all-accessor");
            }
        }
        st.class("token lists");
        if n >= 3 {
            st.nontrivial(&d);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- XML
mod xml {
    use super::*;
    use crate::gen::xmllexer::*;

    fn ws(s: &mut Src) -> &'static str {
        *s.pick(&[" ", "\n", "\t", "\r\n", "  "])
    }
    fn name(s: &mut Src) -> String {
        let mut t = String::new();
        t.push(*s.pick(&['a', 'Z', ':', '語', 'm', '\u{2070}', '\u{FFFD}']));
        for _ in 0..s.len(0, 4) {
            t.push(*s.pick(&['a', '-', '.', '7', '\u{B7}', 'x', 'l', '\u{36F}', '\u{203F}']));
        }
        t
    }
    fn inside(s: &mut Src, b: &mut Build) {
        for _ in 0..s.len(0, 4) {
            b.skip(ws(s));
            match s.draw(4) {
                0 | 1 => {
                    b.tok(Name, &name(s));
                    if s.chance(1, 2) {
                        b.skip(if s.chance(1, 3) { " " } else { "" });
                        b.tok(EQUALS, "=");
                    }
                }
                2 => {
                    let (q, o) = if s.chance(1, 2) { ('"', '\'') } else { ('\'', '"') };
                    let n = s.len(0, 4);
                    let body: String = (0..n).map(|_| *s.pick(&['a', ' ', '>', '/', o, 'é', '\n', '&'])).collect();
                    b.tok(STRING, &format!("{}{}{}", q, body, q));
                }
                _ => {
                    // a slash that starts no '/>'
                    b.tok(SLASH, "/");
                    b.skip(" ");
                }
            }
        }
    }
    pub fn check(s: &mut Src, st: &mut Stats) -> Check {
        let mut b = Build::new();
        let mut after_text = false;
        let mut modes = 0;
        for _ in 0..s.len(1, 8) {
            let mut now_text = false;
            let before = b.text.len();
            match s.draw(10) {
                0 => {
                    let n = s.len(0, 5);
                    let body: String = (0..n).map(|_| *s.pick(&["a", ">", "<", "--", "-", " ", "\n", "語"])).collect();
                    let t = format!("<!--{}-->", body);
                    // the comment ends with the first "-->" after its opening
                    let e = t[4..].find("-->").unwrap() + 7;
                    if e == t.len() {
                        b.tok(COMMENT, &t);
                    }
                }
                1 => {
                    let n = s.len(0, 5);
                    let body: String = (0..n).map(|_| *s.pick(&["a", ">", "<", "]]", "]", " ", "\n", "x<y"])).collect();
                    let t = format!("<![CDATA[{}]]>", body);
                    if t[9..].find("]]>").unwrap() + 12 == t.len() {
                        b.tok(CDATA, &t);
                    }
                }
                2 => {
                    // skipped; must not be a comment or CDATA in the making that ends further on
                    let n = s.len(0, 4);
                    let body: String = (0..n).map(|_| *s.pick(&["A", " ", "\n", "é", "-", "&"])).collect();
                    b.skip(&format!("<!D{}>", body));
                }
                3 => b.tok(EntityRef, &format!("&{};", name(s))),
                4 => {
                    let t = s.pick(&["&#1;", "&#065;", "&#x1F;", "&#xabcDEF09;"]).to_string();
                    b.tok(CharRef, &t)
                }
                5 | 6 => {
                    b.tok(OPEN, "<");
                    modes += 1;
                    if s.chance(2, 3) {
                        b.tok(Name, &name(s));
                    }
                    inside(s, &mut b);
                    match s.draw(3) {
                        0 => b.tok(CLOSE, ">"),
                        1 => b.tok(SLASH_CLOSE, "/>"),
                        _ => b.tok(SPECIAL_CLOSE, "?>"),
                    }
                }
                7 => {
                    let t = format!("<?xml{}", s.pick(&[" ", "\n", "\t", "\r"]));
                    b.tok(XMLDeclOpen, &t);
                    modes += 1;
                    inside(s, &mut b);
                    b.tok(SPECIAL_CLOSE, "?>");
                }
                8 => {
                    // "<?xml" with more name characters is an ordinary instruction
                    let nm = if s.chance(1, 3) { "xml-stylesheet".to_string() } else { name(s) };
                    let n = s.len(0, 5);
                    let body: String = (0..n).map(|_| *s.pick(&["a", ">", "<", "?", " ", "\n", "語", "'"])).collect();
                    let t = format!("<?{} {}?>", nm, body);
                    modes += 1;
                    if t[2..].find("?>").unwrap() + 4 == t.len() && nm != "xml" {
                        b.tok(PI, &t);
                    }
                }
                _ => {
                    if !after_text {
                        let n = s.len(1, 5);
                        let t: String = (0..n).map(|_| *s.pick(&["a", " ", "\n", "é", ">", "\t", "\"", "\r\n", "語"])).collect();
                        let ty = if matches!(t.as_str(), " " | "\t" | "\n" | "\r\n") { SEA_WS } else { TEXT };
                        b.tok(ty, &t);
                        now_text = true;
                    }
                }
            }
            after_text = now_text || (after_text && b.text.len() == before);
        }
        b.eof();
        let d = b.text.clone();
        let (got, e) = guarded("lex", || lex_all!(XMLLexer::new(InputStream::new(&*b.text))))?;
        same("lexing", &got, &b.in_bytes(), &d)?;
        ensure!(e == 0, "{:?}: {} lexical errors", d, e);
        let cps: Vec<u32> = b.text.chars().map(|c| c as u32).collect();
        let (got, e) = guarded("lex", || lex_all!(XMLLexer::new(InputStream::new(&cps[..]))))?;
        let mut want = b.toks.clone();
        for t in want.iter_mut() {
            t.text = got.iter().find(|g| g.start == t.start && g.stop == t.stop).map_or(String::new(), |g| g.text.clone());
        }
        same("lexing", &got, &want, &d)?;
        ensure!(e == 0, "{:?}: {} lexical errors", d, e);
        st.class("XML texts");
        st.class_if(modes > 0, "XML texts with mode changes");
        if b.toks.len() >= 4 {
            st.nontrivial(&d);
            st.sample(|| format!("XML {:?}", d));
        }
        Ok(())
    }
}

mod basic {
    use super::*;
    use crate::gen::visitorbasiclexer::VisitorBasicLexer;
    use crate::gen::visitorbasicparser::*;
    use crate::gen::visitorbasicvisitor::VisitorBasicVisitorCompat;
    struct V(Vec<String>);
    impl<'i> ParseTreeVisitorCompat<'i> for V {
        type Node = VisitorBasicParserContextType;
        type Return = Vec<String>;
        fn temp_result(&mut self) -> &mut Vec<String> {
            &mut self.0
        }
        fn visit_terminal(&mut self, n: &TerminalNode<'i, Self::Node>) -> Vec<String> {
            vec![n.get_text()]
        }
        fn visit_error_node(&mut self, n: &ErrorNode<'i, Self::Node>) -> Vec<String> {
            vec![format!("!{}", n.get_text())]
        }
        fn aggregate_results(&self, mut a: Vec<String>, b: Vec<String>) -> Vec<String> {
            a.extend(b);
            a
        }
    }
    impl<'i> VisitorBasicVisitorCompat<'i> for V {}
    pub fn check(s: &mut Src, st: &mut Stats) -> Check {
        let n = s.len(0, 5);
        let text = "A".repeat(n);
        let errs = Rc::new(Cell::new(0));
        guarded("parse", || -> Check {
            let mut p = VisitorBasicParser::new(CommonTokenStream::new(VisitorBasicLexer::new(InputStream::new(&*text))));
            p.remove_error_listeners();
            p.add_error_listener(Box::new(Count(errs.clone())));
            let r = match p.s() {
                Ok(r) => r,
                Err(e) => return fail(format!("{:?}: the default strategy returns {}", text, e)),
            };
            let want: Vec<String> = match n {
                0 => vec!["!<missing 'A'>".into(), "<EOF>".into()],
                1 => vec!["A".into(), "<EOF>".into()],
                // one extra token is deleted; of more, all but the last stay in front of it as error nodes
                2 => vec!["A".into(), "!A".into(), "<EOF>".into()],
                _ => {
                    let mut v = vec!["A".to_string()];
                    v.extend((1..n).map(|_| "!A".to_string()));
                    v
                }
            };
            let got = V(vec![]).visit(&*r);
            ensure!(got == want, "{:?}: visited {:?}, it must be {:?}", text, got, want);
            ensure!(errs.get() == (n != 1) as usize, "{:?}: {} errors", text, errs.get());
            ensure!(r.A().is_some() == (n > 0), "{:?}: A() is {}", text, r.A().is_some());
            Ok(())
        })??;
        st.class("one-token inputs");
        Ok(())
    }
}

fn c25(s: &mut Src, st: &mut Stats) -> Check {
    match s.weighted(&[6, 3, 6, 2, 4, 2, 2, 6, 1]) {
        0 => csv::valid(s, st),
        1 => csv::damaged(s, st),
        2 => labels::valid(s, st),
        3 => labels::any(s, st),
        4 => calc::check(s, st),
        5 => lists::simple_lr(s, st),
        6 => lists::reference(s, st),
        7 => xml::check(s, st),
        _ => basic::check(s, st),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "a case is a text for one of the bundled grammars' generated recognizers (CSV, Labels, VisitorCalc, SimpleLR, ReferenceToATN, XMLLexer, VisitorBasic), built together with its tokens, tree, return values and events, or a damaged one checked for a tree that agrees with its listeners, walkers and visitors; non-trivial: at least three fields / tokens, or a damaged text with an error",
        f: c25,
        directed: None,
        quick: 400_000,
        thorough: 20_000_000,
        assumptions: &["the recognizers generated into /repo/tests/gen stand for the template's output", "their static caches are shared by all cases of a worker"],
    }]
}
