//! Data-structure and API properties: streams, sets, vocabulary.
use crate::engine::*;
use crate::ensure;
use crate::pardrv::{TokSpec, Toks};
use crate::Prop;
use antlr_rust::char_stream::CharStream;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::input_stream::InputStream;
use antlr_rust::int_stream::{IntStream, IterWrapper};
use antlr_rust::interval_set::{Interval, IntervalSet};
use antlr_rust::token::Token;
use antlr_rust::token_factory::CommonTokenFactory;
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeSet;

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug)]
struct MTok {
    ty: i32,
    channel: isize,
    text: String,
    start: isize,
    stop: isize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Common(isize),
    Buffered,
    Unbuffered,
}

/// reference stream over the full token list (EOF last)
struct TModel {
    t: Vec<MTok>,
    /// indices the stream stops at
    on: Vec<usize>,
    /// position in `on`
    p: usize,
    /// highest token index certainly fetched; -1 none
    seen: isize,
    kind: Kind,
    /// open marks: token index at the time of mark
    marks: Vec<(isize, usize)>,
    /// smallest token index certainly still available
    low: usize,
}
impl TModel {
    fn idx(&self) -> usize {
        self.on[self.p]
    }
    fn at_eof(&self) -> bool {
        self.p + 1 == self.on.len()
    }
    fn la_pos(&self, k: isize) -> Option<usize> {
        if k > 0 {
            Some(self.on[(self.p + k as usize - 1).min(self.on.len() - 1)])
        } else {
            let j = self.p as isize + k;
            if j < 0 {
                None
            } else {
                Some(self.on[j as usize])
            }
        }
    }
}

fn gen_toks(s: &mut Src, chans: usize) -> Vec<TokSpec> {
    let n = s.len(0, 10);
    (0..n)
        .map(|_| TokSpec {
            ty: s.range(1, 4) as i32,
            channel: if s.chance(2, 5) { s.draw(chans) as isize } else { 0 },
            text: ["a", "bc", "", "d\u{e9}", "<>"][s.draw(5)].to_string(),
        })
        .collect()
}

fn check_tok<T: Token + ?Sized>(m: &TModel, i: usize, t: &T, what: &str) -> Check {
    let w = &m.t[i];
    ensure!(
        t.get_token_index() == i as isize,
        "{}: expected the token at index {}, got one with index {} (type {})",
        what,
        i,
        t.get_token_index(),
        t.get_token_type()
    );
    ensure!(
        t.get_token_type() == w.ty as isize && t.get_channel() == w.channel && t.get_start() == w.start && t.get_stop() == w.stop,
        "{}: token {} should be {:?}, got type {} channel {} {}..{}",
        what,
        i,
        w,
        t.get_token_type(),
        t.get_channel(),
        t.get_start(),
        t.get_stop()
    );
    Ok(())
}

fn text_of(m: &TModel, a: usize, b: usize) -> String {
    let mut o = String::new();
    for t in &m.t[a..=b] {
        if t.ty == -1 {
            break;
        }
        o.push_str(&t.text);
    }
    o
}

/// invariants that must hold after every operation
fn state_ok<S: TokenStream<'static, TF = CommonTokenFactory>>(m: &mut TModel, st: &mut S) -> Check {
    ensure!(st.index() == m.idx() as isize, "index() is {}, should be {}", st.index(), m.idx());
    if m.kind != Kind::Unbuffered {
        let n = st.size();
        ensure!(n <= m.t.len() as isize && n > m.seen, "size() is {} after tokens up to {} of {} were seen", n, m.seen, m.t.len());
        m.seen = n - 1;
    }
    for i in (m.low as isize..=m.seen).rev().take(4) {
        check_tok(m, i as usize, &**st.get(i), "get")?;
    }
    Ok(())
}

fn drive<S: TokenStream<'static, TF = CommonTokenFactory>>(
    s: &mut Src,
    st: &mut Stats,
    m: &mut TModel,
    stream: &mut S,
    log: &RefCell<Vec<String>>,
    reset: &dyn Fn(&mut S) -> bool,
) -> Check {
    let nops = s.len(1, 24);
    let mut moved_back = false;
    for _ in 0..nops {
        let op = s.weighted(&[5, 3, 6, 2, 2, 3, 2, 1, 2, 1]);
        match op {
            0 | 1 => {
                let k = s.range(1, 4) as isize * if s.chance(2, 5) { -1 } else { 1 };
                let want = m.la_pos(k);
                log.borrow_mut().push(format!("{}({})", if op == 0 { "lt" } else { "la" }, k));
                if k > 0 {
                    m.seen = m.seen.max(want.unwrap() as isize);
                }
                // an unbuffered stream may have dropped tokens further back
                let dropped = want.map_or(false, |w| w < m.low);
                if op == 0 {
                    let got = guarded("lt", || stream.lt(k).is_some())?;
                    if got {
                        let t = stream.lt(k).unwrap();
                        match want {
                            Some(w) => check_tok(m, w, &**t, &format!("lt({})", k))?,
                            None => return fail(format!("lt({}) returns a token before the first one", k)),
                        }
                    } else {
                        ensure!(want.is_none() || dropped, "lt({}) returns nothing, should be token {}", k, want.unwrap());
                    }
                } else {
                    let got = guarded("la", || stream.la(k))?;
                    match want {
                        Some(w) => ensure!(
                            got == m.t[w].ty as isize || (dropped && got == 0),
                            "la({}) is {}, should be {}",
                            k,
                            got,
                            m.t[w].ty
                        ),
                        None => ensure!(got == 0, "la({}) is {} before the first token", k, got),
                    }
                }
            }
            2 => {
                if m.at_eof() {
                    continue;
                }
                log.borrow_mut().push("consume".into());
                guarded("consume", || stream.consume())?;
                m.p += 1;
                m.seen = m.seen.max(m.idx() as isize);
                if m.kind == Kind::Unbuffered && m.marks.is_empty() {
                    m.low = m.idx() - 1;
                }
            }
            3 => {
                if m.marks.len() >= 3 {
                    continue;
                }
                log.borrow_mut().push("mark".into());
                let h = guarded("mark", || stream.mark())?;
                m.marks.push((h, m.idx()));
            }
            4 => {
                // released in reverse order of marking
                let (h, _) = match m.marks.pop() {
                    Some(x) => x,
                    None => continue,
                };
                log.borrow_mut().push("release".into());
                guarded("release", || stream.release(h))?;
                if m.kind == Kind::Unbuffered && m.marks.is_empty() {
                    m.low = m.idx().saturating_sub(1).max(m.low);
                }
            }
            5 => {
                // seek
                let lo = if m.kind == Kind::Unbuffered {
                    match m.marks.iter().map(|x| x.1).min() {
                        Some(x) => x,
                        None => m.idx(),
                    }
                } else {
                    0
                };
                let cand: Vec<usize> = (0..m.on.len()).filter(|i| m.on[*i] >= lo).collect();
                let q = *s.pick(&cand);
                log.borrow_mut().push(format!("seek({})", m.on[q]));
                moved_back |= q < m.p;
                let to = m.on[q] as isize;
                guarded("seek", || stream.seek(to))?;
                if q != m.p {
                    m.seen = m.seen.max(to);
                }
                m.p = q;
                if m.kind == Kind::Unbuffered && m.marks.is_empty() {
                    m.low = m.low.max(m.idx().saturating_sub(1));
                }
            }
            6 | 8 => {
                if m.seen < m.low as isize {
                    continue;
                }
                let a = s.range(m.low, m.seen as usize);
                let b = s.range(a, m.seen as usize);
                let want = text_of(m, a, b);
                log.borrow_mut().push(format!("text({},{})", a, b));
                let got = guarded("text", || {
                    if op == 6 {
                        stream.get_text_from_interval(a as isize, b as isize)
                    } else {
                        stream.get_text_from_tokens(&**stream.get(a as isize), &**stream.get(b as isize))
                    }
                })?;
                ensure!(got == want, "text of tokens {}..={} is {:?}, should be {:?}", a, b, got, want);
            }
            7 => {
                log.borrow_mut().push("reset".into());
                if guarded("reset", || reset(stream))? {
                    m.p = 0;
                    m.marks.clear();
                }
            }
            _ => {
                if m.kind != Kind::Unbuffered && m.seen + 1 == m.t.len() as isize {
                    let got = guarded("get_all_text", || stream.get_all_text())?;
                    let want = text_of(m, 0, m.t.len() - 1);
                    ensure!(got == want, "get_all_text is {:?}, should be {:?}", got, want);
                }
            }
        }
        guarded("state", || state_ok(m, stream))??;
        // the current symbol is always available
        let c = guarded("la(1)", || stream.la(1))?;
        m.seen = m.seen.max(m.idx() as isize);
        ensure!(c == m.t[m.idx()].ty as isize, "la(1) is {} at index {}, should be {}", c, m.idx(), m.t[m.idx()].ty);
    }
    st.class_if(moved_back, "sought backwards");
    st.class_if(m.at_eof(), "reached EOF");
    st.class_if(!m.marks.is_empty(), "mark left open");
    Ok(())
}

fn c17(s: &mut Src, st: &mut Stats) -> Check {
    let toks = gen_toks(s, 3);
    let kind = match s.draw(5) {
        0 | 1 => Kind::Common(0),
        2 => Kind::Common(s.range(1, 2) as isize),
        3 => Kind::Buffered,
        _ => Kind::Unbuffered,
    };
    let eof_channel = if s.chance(1, 4) { 1 } else { 0 };
    let mut t = vec![];
    let mut off = 0isize;
    for x in &toks {
        let n = x.text.chars().count() as isize;
        t.push(MTok { ty: x.ty, channel: x.channel, text: x.text.clone(), start: off, stop: off + n - 1 });
        off += n;
    }
    t.push(MTok { ty: -1, channel: eof_channel, text: String::new(), start: off, stop: off - 1 });
    let on: Vec<usize> = (0..t.len())
        .filter(|i| match kind {
            Kind::Common(c) => t[*i].channel == c || t[*i].ty == -1,
            _ => true,
        })
        .collect();
    let src = {
        let mut x = Toks::new(toks.clone());
        x.eof_channel = eof_channel;
        x
    };
    let eofs = src.eofs.clone();
    let mut m = TModel { t, on, p: 0, seen: -1, kind, marks: vec![], low: 0 };
    let log: RefCell<Vec<String>> = RefCell::new(vec![]);
    let descr = format!(
        "{:?} over {:?} eof channel {}",
        kind,
        toks.iter().map(|x| (x.ty, x.channel, x.text.as_str())).collect::<Vec<_>>(),
        eof_channel
    );
    let r = (|| -> Check {
        match kind {
            Kind::Common(c) => {
                let mut stream = guarded("construction", || {
                    if c == 0 && toks.len() % 2 == 0 {
                        CommonTokenStream::new(src)
                    } else {
                        CommonTokenStream::with_channel(src, c)
                    }
                })?;
                drive(s, st, &mut m, &mut stream, &log, &|x| {
                    x.reset();
                    true
                })?;
                log.borrow_mut().push("iter".into());
                let rest: Vec<isize> = guarded("iter", || stream.iter().collect())?;
                let want: Vec<isize> = m.on[m.p..m.on.len() - 1].iter().map(|i| m.t[*i].ty as isize).collect();
                ensure!(rest == want, "iter() yields {:?}, should be {:?}", rest, want);
                ensure!(stream.la(1) == -1, "not at EOF after iter()");
            }
            _ => {
                let mut stream = if kind == Kind::Buffered {
                    UnbufferedTokenStream::new_buffered(src)
                } else {
                    UnbufferedTokenStream::new_unbuffered(src)
                };
                drive(s, st, &mut m, &mut stream, &log, &|_| false)?;
                if s.chance(1, 2) {
                    log.borrow_mut().push("token_iter".into());
                    let rest = guarded("token_iter", || stream.token_iter().collect::<Vec<_>>())?;
                    let want = &m.on[m.p..];
                    ensure!(rest.len() == want.len(), "token_iter() yields {} tokens, should be {}", rest.len(), want.len());
                    for (t, i) in rest.iter().zip(want) {
                        check_tok(&m, *i, t, "token_iter")?;
                    }
                } else {
                    log.borrow_mut().push("iter".into());
                    let rest: Vec<isize> = guarded("iter", || stream.iter().collect())?;
                    let want: Vec<isize> = m.on[m.p..m.on.len() - 1].iter().map(|i| m.t[*i].ty as isize).collect();
                    ensure!(rest == want, "iter() yields {:?}, should be {:?}", rest, want);
                }
            }
        }
        ensure!(eofs.get() == 1, "the source was asked for tokens after EOF ({} EOF tokens)", eofs.get());
        Ok(())
    })();
    if let Err(e) = r {
        return fail(format!("{}\n{}\noperations: {}", descr, e.msg, log.borrow().join(" ")));
    }
    let l = log.into_inner();
    st.class(match kind {
        Kind::Common(0) => "common stream",
        Kind::Common(_) => "common stream, other channel",
        Kind::Buffered => "buffered stream",
        Kind::Unbuffered => "unbuffered stream",
    });
    let hidden = m.on.len() < m.t.len();
    st.class_if(hidden, "has off-channel tokens");
    if l.len() >= 4 && toks.len() >= 2 {
        let d = format!("{} :: {}", descr, l.join(" "));
        st.nontrivial(&d);
        st.sample(|| d.clone());
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

/// model of a symbol stream: symbols and the raw offset where each starts (plus the end)
struct CModel {
    sym: Vec<isize>,
    off: Vec<isize>,
    p: usize,
}

fn cdrive<S: IntStream>(
    s: &mut Src,
    m: &mut CModel,
    stream: &mut S,
    log: &RefCell<Vec<String>>,
    text: &mut dyn FnMut(&mut Src, &mut CModel, &S, &RefCell<Vec<String>>) -> Check,
    reset: &dyn Fn(&mut S),
) -> Check {
    let n = m.sym.len();
    let nops = s.len(1, 20);
    let mut marks = vec![];
    for _ in 0..nops {
        match s.weighted(&[5, 5, 3, 4, 1, 1, 1]) {
            0 => {
                let k = s.range(1, 4) as isize * if s.chance(2, 5) { -1 } else { 1 };
                log.borrow_mut().push(format!("la({})", k));
                let j = m.p as isize + if k > 0 { k - 1 } else { k };
                let want = if j < 0 || j >= n as isize { -1 } else { m.sym[j as usize] };
                let got = guarded("la", || stream.la(k))?;
                ensure!(got == want, "la({}) at {} is {}, should be {}", k, m.off[m.p], got, want);
            }
            1 => {
                if m.p < n {
                    log.borrow_mut().push("consume".into());
                    guarded("consume", || stream.consume())?;
                    m.p += 1;
                }
            }
            2 => {
                let q = s.draw(n + 1);
                log.borrow_mut().push(format!("seek({})", m.off[q]));
                let o = m.off[q];
                guarded("seek", || stream.seek(o))?;
                m.p = q;
            }
            3 => {
                text(s, m, stream, log)?;
            }
            4 => {
                log.borrow_mut().push("mark".into());
                marks.push((guarded("mark", || stream.mark())?, m.p));
            }
            5 => {
                if let Some((h, q)) = marks.pop() {
                    log.borrow_mut().push("seek to mark, release".into());
                    let o = m.off[q];
                    guarded("release", || {
                        stream.seek(o);
                        stream.release(h)
                    })?;
                    m.p = q;
                }
            }
            _ => {
                log.borrow_mut().push("reset".into());
                guarded("reset", || reset(stream))?;
                m.p = 0;
            }
        }
        ensure!(stream.index() == m.off[m.p], "index() is {}, should be {}", stream.index(), m.off[m.p]);
        ensure!(stream.size() == m.off[n], "size() is {}, should be {}", stream.size(), m.off[n]);
        let c = guarded("la(1)", || stream.la(1))?;
        let want = if m.p < n { m.sym[m.p] } else { -1 };
        ensure!(c == want, "la(1) at {} is {}, should be {}", m.off[m.p], c, want);
    }
    log.borrow_mut().push("iterate".into());
    let rest: Vec<isize> = guarded("iteration", || IterWrapper(stream).collect())?;
    ensure!(rest == m.sym[m.p..], "iteration yields {:?}, should be {:?}", rest, &m.sym[m.p..]);
    ensure!(stream.index() == m.off[n], "index() after iterating is {}, should be {}", stream.index(), m.off[n]);
    Ok(())
}

/// an inclusive interval of symbols as raw (start, stop); stop may be any offset inside its last symbol,
/// the interval may be empty and may reach beyond the end
fn interval(s: &mut Src, m: &CModel) -> (usize, usize, isize, isize) {
    let n = m.sym.len();
    let a = s.draw(n + 1);
    let b = if s.chance(1, 6) { a } else { s.range(a, n) };
    let start = m.off[a];
    let stop = if b == a {
        start - 1
    } else {
        let lo = m.off[b - 1];
        let hi = m.off[b] - 1;
        lo + s.draw((hi - lo + 1) as usize) as isize
    };
    let stop = if b == n && n > 0 && s.chance(1, 6) { m.off[n] + s.draw(3) as isize } else { stop };
    (a, b, start, stop)
}

macro_rules! slice_stream {
    ($s:expr, $sym:expr, $log:expr, $t:ty) => {{
        let data: Vec<$t> = $sym.iter().map(|x| *x as $t).collect();
        let mut m = CModel { sym: $sym.clone(), off: (0..=data.len() as isize).collect(), p: 0 };
        let disp = |a: usize, b: usize| -> String {
            data[a..b].iter().map(|x| char::from_u32(*x as u32).unwrap_or('\u{FFFD}')).collect()
        };
        if $s.chance(1, 3) {
            let mut st: InputStream<Box<[$t]>> = InputStream::new_owned(data.clone().into_boxed_slice());
            cdrive($s, &mut m, &mut st, $log, &mut |s, m, st, log| {
                let (a, b, i, j) = interval(s, m);
                log.borrow_mut().push(format!("get_text({},{})", i, j));
                let got: Vec<$t> = guarded("get_text", || CharStream::<Vec<$t>>::get_text(st, i, j))?;
                ensure!(got == data[a..b], "get_text({},{}) is {:?}, should be {:?}", i, j, got, &data[a..b]);
                Ok(())
            }, &|x| x.reset())?;
        } else {
            let mut st: InputStream<&[$t]> = InputStream::new(&data[..]);
            cdrive($s, &mut m, &mut st, $log, &mut |s, m, st, log| {
                let (a, b, i, j) = interval(s, m);
                log.borrow_mut().push(format!("get_text({},{})", i, j));
                let want = &data[a..b];
                let g1: &[$t] = guarded("get_text", || CharStream::<&[$t]>::get_text(st, i, j))?;
                ensure!(g1 == want, "get_text({},{}) is {:?}, should be {:?}", i, j, g1, want);
                let g2: Cow<'_, [$t]> = guarded("get_text", || CharStream::<Cow<'_, [$t]>>::get_text(st, i, j))?;
                ensure!(&*g2 == want, "get_text({},{}) as Cow is {:?}, should be {:?}", i, j, g2, want);
                let g3: String = guarded("get_text", || CharStream::<String>::get_text(st, i, j))?;
                ensure!(g3 == disp(a, b), "get_text({},{}) as String is {:?}, should be {:?}", i, j, g3, disp(a, b));
                let g4: Cow<'_, str> = guarded("get_text", || CharStream::<Cow<'_, str>>::get_text(st, i, j))?;
                ensure!(g4 == disp(a, b), "get_text({},{}) as Cow<str> is {:?}, should be {:?}", i, j, g4, disp(a, b));
                Ok(())
            }, &|x| x.reset())?;
        }
    }};
}

fn c18(s: &mut Src, st: &mut Stats) -> Check {
    let kind = s.draw(5);
    let n = s.len(0, 12);
    let sym: Vec<isize> = (0..n)
        .map(|_| -> isize {
            match kind {
                0 | 1 => *s.pick(&['a', 'b', '\n', '\u{7f}', '\u{80}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{1F600}', '\u{10FFFF}', '\u{0}']) as isize,
                2 => *s.pick(&[97isize, 98, 10, 0, 127, 128, 200, 255]),
                3 => *s.pick(&[97isize, 98, 10, 0, 255, 256, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFF]),
                _ => *s.pick(&[97isize, 98, 10, 0, 255, 256, 0xD800, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000]),
            }
        })
        .collect();
    let log: RefCell<Vec<String>> = RefCell::new(vec![]);
    let names = ["&str", "Box<str>", "[u8]", "[u16]", "[u32]"];
    let r = (|| -> Check {
        match kind {
            0 | 1 => {
                let text: String = sym.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect();
                let mut off = vec![0isize];
                for c in text.chars() {
                    off.push(off.last().unwrap() + c.len_utf8() as isize);
                }
                let mut m = CModel { sym: sym.clone(), off, p: 0 };
                macro_rules! txt {
                    ($ty:ty, $st:expr, $i:expr, $j:expr, $want:expr) => {{
                        let got: $ty = guarded("get_text", || CharStream::<$ty>::get_text($st, $i, $j))?;
                        let got: &str = &got;
                        ensure!(got == $want, "get_text({},{}) is {:?}, should be {:?}", $i, $j, got, $want);
                    }};
                }
                if kind == 0 {
                    let mut stream: InputStream<&str> = InputStream::new(&text[..]);
                    cdrive(s, &mut m, &mut stream, &log, &mut |s, m, st, log| {
                        let (a, b, i, j) = interval(s, m);
                        log.borrow_mut().push(format!("get_text({},{})", i, j));
                        let want = &text[m.off[a] as usize..m.off[b] as usize];
                        txt!(&str, st, i, j, want);
                        txt!(String, st, i, j, want);
                        txt!(Cow<'_, str>, st, i, j, want);
                        Ok(())
                    }, &|x| x.reset())?;
                } else {
                    let mut stream: InputStream<Box<str>> = InputStream::new_owned(text.clone().into_boxed_str());
                    cdrive(s, &mut m, &mut stream, &log, &mut |s, m, st, log| {
                        let (a, b, i, j) = interval(s, m);
                        log.borrow_mut().push(format!("get_text({},{})", i, j));
                        let want = &text[m.off[a] as usize..m.off[b] as usize];
                        txt!(String, st, i, j, want);
                        txt!(Cow<'_, str>, st, i, j, want);
                        Ok(())
                    }, &|x| x.reset())?;
                }
            }
            2 => slice_stream!(s, sym, &log, u8),
            3 => slice_stream!(s, sym, &log, u16),
            _ => slice_stream!(s, sym, &log, u32),
        }
        Ok(())
    })();
    if let Err(e) = r {
        return fail(format!("InputStream over {} {:X?}\n{}\noperations: {}", names[kind], sym, e.msg, log.borrow().join(" ")));
    }
    st.class(names[kind]);
    let l = log.into_inner();
    st.class_if(n == 0, "empty input");
    if n >= 2 && l.len() >= 4 {
        let d = format!("{} {:X?} :: {}", names[kind], sym, l.join(" "));
        st.nontrivial(&d);
        st.sample(|| d.clone());
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn render(m: &BTreeSet<isize>, name: &dyn Fn(isize) -> String) -> String {
    let v: Vec<String> = m
        .iter()
        .map(|x| match *x {
            -1 => "<EOF>".to_string(),
            -2 => "<EPSILON>".to_string(),
            x => name(x),
        })
        .collect();
    match v.len() {
        0 => "{}".into(),
        1 => v[0].clone(),
        _ => format!("{{{}}}", v.join(", ")),
    }
}

fn build(m: &BTreeSet<isize>, s: &mut Src) -> IntervalSet {
    // the same set by another route: single elements in a drawn order
    let mut v: Vec<isize> = m.iter().copied().collect();
    let mut r = IntervalSet::new();
    while !v.is_empty() {
        let i = s.draw(v.len());
        r.add_one(v.swap_remove(i));
    }
    r
}

fn c19(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(1, 5) {
        return c19_vocab(s, st);
    }
    if s.chance(1, 12) {
        return c19_interval(s, st);
    }
    let base = *s.pick(&[0isize, 0, 0, 100, 0x10FFF0]);
    let lo = -2isize;
    let span = s.range(4, 24) as isize;
    let mut log: Vec<String> = vec![];
    let mut sets: Vec<(IntervalSet, BTreeSet<isize>)> = vec![];
    for _ in 0..2 {
        sets.push((IntervalSet::new(), BTreeSet::new()));
    }
    let val = |s: &mut Src| -> isize {
        let v = s.draw(span as usize) as isize;
        if base == 0 { lo + v } else { base + v }
    };
    let nops = s.len(1, 20);
    let mut err: Option<String> = None;
    for _ in 0..nops {
        let w = s.draw(2);
        let r = (|| -> Check {
            match s.weighted(&[4, 5, 4, 2, 3, 2, 3]) {
                0 => {
                    let v = val(s);
                    log.push(format!("{}.add_one({})", w, v));
                    guarded("add_one", || sets[w].0.add_one(v))?;
                    sets[w].1.insert(v);
                }
                1 => {
                    let (a, b) = (val(s), val(s));
                    log.push(format!("{}.add_range({},{})", w, a, b));
                    guarded("add_range", || sets[w].0.add_range(a, b))?;
                    sets[w].1.extend(a..=b);
                }
                2 => {
                    let (a, b) = (val(s), val(s));
                    log.push(format!("{}.add_interval({},{})", w, a, b));
                    guarded("add_interval", || sets[w].0.add_interval(Interval { a, b }))?;
                    sets[w].1.extend(a..=b);
                }
                3 => {
                    log.push(format!("{}.add_set({})", w, 1 - w));
                    let o = sets[1 - w].clone();
                    guarded("add_set", || sets[w].0.add_set(&o.0))?;
                    sets[w].1.extend(o.1);
                }
                4 => {
                    log.push(format!("{}.substract({})", w, 1 - w));
                    let o = sets[1 - w].clone();
                    guarded("substract", || sets[w].0.substract(&o.0))?;
                    sets[w].1.retain(|x| !o.1.contains(x));
                }
                5 => {
                    let (a, b) = (val(s), val(s));
                    log.push(format!("{} = {}.complement({},{})", w, w, a, b));
                    let c = guarded("complement", || sets[w].0.complement(a, b))?;
                    let mm: BTreeSet<isize> = (a..=b).filter(|x| !sets[w].1.contains(x)).collect();
                    sets[w] = (c, mm);
                }
                _ => {
                    let v = val(s);
                    log.push(format!("{}.remove_one({})", w, v));
                    guarded("remove_one", || sets[w].0.remove_one(v))?;
                    sets[w].1.remove(&v);
                }
            }
            let (r, m) = &sets[w];
            ensure!(r.length() == m.len() as isize, "length() is {}, should be {}", r.length(), m.len());
            ensure!(r.get_min() == m.iter().next().copied(), "get_min() is {:?}, should be {:?}", r.get_min(), m.iter().next());
            for x in lo - 2..lo + span + 2 {
                let x = if base == 0 { x } else { base - lo + x };
                ensure!(r.contains(x) == m.contains(&x), "contains({}) is {}, set is {:?}", x, r.contains(x), m);
            }
            let want = render(m, &|x| x.to_string());
            let got = guarded("to_index_string", || r.to_index_string())?;
            ensure!(got == want, "to_index_string() is {}, should be {}", got, want);
            Ok(())
        })();
        if let Err(e) = r {
            err = Some(e.msg);
            break;
        }
    }
    if err.is_none() {
        for w in 0..2 {
            let other = build(&sets[w].1, s);
            if other != sets[w].0 {
                err = Some(format!("{:?} and {:?} hold the same elements but compare unequal", other, sets[w].0));
            }
        }
        if (sets[0].0 == sets[1].0) != (sets[0].1 == sets[1].1) {
            err = Some(format!("equality of {:?} and {:?} is wrong", sets[0].0, sets[1].0));
        }
    }
    if let Some(e) = err {
        return fail(format!("{}\noperations: {}", e, log.join("; ")));
    }
    st.class("interval set");
    if log.len() >= 3 && sets.iter().any(|x| x.1.len() >= 2) {
        let d = log.join("; ");
        st.nontrivial(&d);
        st.sample(|| d.clone());
    }
    Ok(())
}

fn c19_interval(s: &mut Src, st: &mut Stats) -> Check {
    let iv = |s: &mut Src| {
        let a = s.draw(8) as isize - 2;
        Interval { a, b: a + s.draw(5) as isize }
    };
    let (x, y) = (iv(s), iv(s));
    let sx: BTreeSet<isize> = (x.a..=x.b).collect();
    let sy: BTreeSet<isize> = (y.a..=y.b).collect();
    let dis = sx.is_disjoint(&sy);
    let all_before = sx.iter().all(|p| sy.iter().all(|q| p < q));
    let all_after = sx.iter().all(|p| sy.iter().all(|q| p > q));
    let adj = !dis == false && (x.b + 1 == y.a || y.b + 1 == x.a);
    let e = |n: &str, g: bool, w: bool| -> Check {
        ensure!(g == w, "{}({:?}, {:?}) is {}, should be {}", n, x, y, g, w);
        Ok(())
    };
    e("disjoint", x.disjoint(&y), dis)?;
    e("starts_before_disjoint", x.starts_before_disjoint(&y), all_before)?;
    e("starts_after_disjoint", x.starts_after_disjoint(&y), all_after)?;
    e("starts_after", x.starts_after(&y), x.a > y.a)?;
    e("starts_before_non_disjoint", x.starts_before_non_disjoint(&y), !dis && x.a <= y.a)?;
    e("starts_after_non_disjoint", x.starts_after_non_disjoint(&y), !dis && x.a > y.a)?;
    e("adjacent", x.adjacent(&y), adj)?;
    st.class("interval predicates");
    Ok(())
}

fn c19_vocab(s: &mut Src, st: &mut Stats) -> Check {
    let n = s.len(0, 6);
    let pool_l = ["'+'", "'if'", "'\\n'", "''"];
    let pool_s = ["ID", "INT", "Ws", "\u{c9}t"];
    let pool_d = ["a plus", "", "nl"];
    let eof = antlr_rust::token::TOKEN_EOF;
    if s.chance(1, 3) {
        let pool = ["'+'", "'if'", "ID", "INT", "ws", "", "_x", "\u{c9}t", "'"];
        let names: Vec<Option<&str>> = (0..n).map(|_| if s.chance(3, 4) { Some(*s.pick(&pool)) } else { None }).collect();
        let v = guarded("from_token_names", || VocabularyImpl::from_token_names(&names))?;
        for t in -2..n as isize + 2 {
            let x = if t >= 0 { names.get(t as usize).copied().flatten() } else { None };
            let lit = x.filter(|x| x.starts_with('\''));
            let sym = if t == eof { Some("EOF") } else { x.filter(|x| x.chars().next().map_or(false, |c| c.is_uppercase())) };
            let d = x.map(|x| x.to_string()).or(sym.map(|x| x.to_string())).unwrap_or(t.to_string());
            vocab_is(&v, t, lit, sym, &d, &format!("from_token_names({:?})", names))?;
        }
        ensure!(v.get_max_token_type() == n as isize - 1, "max token type {} for {} names", v.get_max_token_type(), n);
        st.class("vocabulary from token names");
        if n >= 2 {
            st.nontrivial(&format!("names {:?}", names));
        }
        return Ok(());
    }
    let col = |s: &mut Src, p: &[&'static str]| -> Vec<Option<&'static str>> {
        let k = s.len(0, 6);
        (0..k).map(|_| if s.chance(2, 3) { Some(*s.pick(p)) } else { None }).collect()
    };
    let (l, y) = (col(s, &pool_l), col(s, &pool_s));
    let d = if s.chance(1, 2) { Some(col(s, &pool_d)) } else { None };
    let v = guarded("vocabulary", || VocabularyImpl::new(l.iter(), y.iter(), d.as_ref().map(|x| x.iter())))?;
    let what = format!("VocabularyImpl::new({:?}, {:?}, {:?})", l, y, d);
    let empty = vec![];
    let dd = d.as_ref().unwrap_or(&empty);
    let at = |v: &Vec<Option<&'static str>>, t: isize| if t < 0 { None } else { v.get(t as usize).copied().flatten() };
    for t in -2..9 {
        let lit = at(&l, t);
        let sym = if t == eof { Some("EOF") } else { at(&y, t) };
        let disp = at(dd, t).or(lit).or(sym).map(|x| x.to_string()).unwrap_or(t.to_string());
        vocab_is(&v, t, lit, sym, &disp, &what)?;
    }
    let mx = l.len().max(y.len()).max(dd.len()) as isize - 1;
    ensure!(v.get_max_token_type() == mx, "{}: max token type {}, should be {}", what, v.get_max_token_type(), mx);
    // names inside a set
    let mut m = BTreeSet::new();
    for t in -2..8 {
        if s.chance(1, 3) {
            m.insert(t);
        }
    }
    let set = build(&m, s);
    let want = render(&m, &|t| at(dd, t).or(at(&l, t)).or(at(&y, t)).map(|x| x.to_string()).unwrap_or(t.to_string()));
    let got = guarded("to_token_string", || set.to_token_string(&v))?;
    ensure!(got == want, "{}: set {:?} prints as {}, should be {}", what, m, got, want);
    st.class("vocabulary");
    if l.len() + y.len() >= 2 {
        st.nontrivial(&what);
        st.sample(|| what.clone());
    }
    Ok(())
}

fn vocab_is(v: &VocabularyImpl, t: isize, l: Option<&str>, y: Option<&str>, d: &str, what: &str) -> Check {
    ensure!(v.get_literal_name(t) == l, "{}: literal name of {} is {:?}, should be {:?}", what, t, v.get_literal_name(t), l);
    ensure!(v.get_symbolic_name(t) == y, "{}: symbolic name of {} is {:?}, should be {:?}", what, t, v.get_symbolic_name(t), y);
    ensure!(v.get_display_name(t) == d, "{}: display name of {} is {:?}, should be {:?}", what, t, v.get_display_name(t), d);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "a case is a random token list (hidden tokens, any channel for EOF), a stream kind (common on channel 0/1/2, buffered, unbuffered) and up to 24 operations (lt, la, consume, mark, release, seek, get, text, reset), each compared with a reference over the whole list, finished by iterating the rest; non-trivial: at least two tokens and four operations; distinct by list and operations",
            f: c17,
            directed: None,
            quick: 4_000_000,
            thorough: 100_000_000,
            assumptions: &["marks are released last-in first-out", "seek targets are positions the stream can stand at; unbuffered streams are only sought inside a marked region or forward"],
        },
        Prop {
            id: "C18",
            rule: "a case is a random symbol sequence in one of five representations (&str, Box<str>, u8, u16, u32 slices borrowed or owned, with surrogates and out-of-range values where representable) and up to 20 operations (la, consume, seek, get_text, mark, release, reset), compared with a reference, finished by iterating; non-trivial: at least two symbols and four operations",
            f: c18,
            directed: None,
            quick: 5_000_000,
            thorough: 120_000_000,
            assumptions: &["seek targets and text starts are symbol boundaries"],
        },
        Prop {
            id: "C19",
            rule: "a case is a sequence of up to 20 operations on two interval sets compared after every step with ordinary sets, or a vocabulary / interval-predicate case; non-trivial: at least three operations and a set of two elements, or two names",
            f: c19,
            directed: None,
            quick: 5_000_000,
            thorough: 120_000_000,
            assumptions: &[],
        },
    ]
}
