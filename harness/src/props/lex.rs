//! Lexer properties.
use crate::engine::*;
use crate::ensure;
use crate::lexdrv::*;
use crate::lexg::*;
use crate::Prop;
use antlr_rust::input_stream::InputStream;
use antlr_rust::lexer_atn_simulator::ILexerATNSimulator;
use antlr_rust::token_factory::{ArenaCommonFactory, ArenaOwningFactory, CommonTokenFactory, OwningTokenFactory};
use antlr_rust::TokenSource;
use std::cell::RefCell;
use std::rc::Rc;

pub const LIM: usize = 60_000;

pub fn describe(g: &LGram, input: &[i32]) -> String {
    format!("lexer grammar: {}\ninput: {:?}", g.show(), disp(input))
}
fn disp(input: &[i32]) -> String {
    input
        .iter()
        .map(|c| match char::from_u32(*c as u32) {
            Some(x) => x.to_string(),
            None => format!("<{:X}>", c),
        })
        .collect()
}

pub fn tf() -> &'static CommonTokenFactory {
    <&CommonTokenFactory as Default>::default()
}

/// run on a str stream with the default factory
pub fn run_str(sh: &Shared, g: &Rc<LGram>, text: &str) -> LexRun {
    let map = Rc::new(byte_map(text));
    run_lexer(sh, g, map, InputStream::new(text), tf(), 2 * text.len() + 16)
}
pub fn raw_str(input: &[i32]) -> Vec<isize> {
    let mut v = vec![0];
    for c in input {
        v.push(v.last().unwrap() + char::from_u32(*c as u32).unwrap().len_utf8() as isize);
    }
    v
}

pub fn gen_grammar(s: &mut Src, o: LOpts) -> LGram {
    if s.chance(1, 5) {
        gen_template(s, o)
    } else {
        gen_lgram(s, o)
    }
}

struct Case {
    input: Vec<i32>,
    text: String,
    exp: LexOut,
    want: LexRun,
}

fn one(s: &mut Src, st: &mut Stats, g: &LGram, max: usize) -> Option<Case> {
    let input = gen_linput(s, g, max);
    let exp = match ref_lex(g, &input, LIM) {
        Some(e) => e,
        None => {
            st.skipped += 1;
            return None;
        }
    };
    let text = to_string(&input);
    let rw = raw_str(&input);
    let want = expect(&exp, &input, &|k| rw[k.min(rw.len() - 1)]);
    Some(Case { input, text, exp, want })
}

fn compare(g: &LGram, c: &Case, got: &LexRun) -> Check {
    if let Some(d) = diff(got, &c.want) {
        return fail(format!("{}\n{}", describe(g, &c.input), d));
    }
    for t in &got.after {
        ensure!(
            t.ty == -1 && Some(t.stop) == c.want.toks.last().map(|x| x.stop) && t.start == t.stop + 1,
            "{}\nafter the end-of-input token the lexer returned {:?}",
            describe(g, &c.input),
            t
        );
    }
    Ok(())
}

fn note(st: &mut Stats, g: &LGram, c: &Case, nontrivial: bool) {
    if nontrivial {
        let d = describe(g, &c.input);
        st.nontrivial(&d);
        if c.exp.toks.len() > 3 {
            st.sample(|| d.clone());
        }
    }
}

// ---------------------------------------------------------------- C01

fn c01(s: &mut Src, st: &mut Stats) -> Check {
    let o = LOpts {
        nongreedy: s.chance(1, 2),
        unicode: s.chance(1, 3),
        eof: s.chance(1, 4),
        recursion: s.chance(1, 3),
        ..Default::default()
    };
    let g = Rc::new(gen_grammar(s, o));
    let atn = compile(&g);
    let sh = guarded("deserialize", || Shared::new(&atn))?;
    for _ in 0..4 {
        let c = match one(s, st, &g, 40) {
            Some(c) => c,
            None => continue,
        };
        let got = guarded(&describe(&g, &c.input), || run_str(&sh, &g, &c.text))?;
        compare(&g, &c, &got)?;
        // second, simulation-free oracle: longest match, then first rule (greedy, EOF-free grammars)
        if !g.has_nongreedy() && !o.eof && !g.rules.iter().any(|r| r.alts.iter().any(|a| !a.1.is_empty())) {
            let mut lang = Lang::new(&g, &c.input);
            let mut pos = 0;
            let mut k = 0;
            while pos < c.input.len() {
                match lang.best(0, pos) {
                    Some((e, r)) => {
                        let t = got.toks.get(k);
                        let map = byte_map(&c.text);
                        ensure!(
                            t.map_or(false, |t| t.ty == g.rules[r].tok
                                && map.get(t.start as usize) == Some(&pos)
                                && map.get((t.stop + 1) as usize) == Some(&e)),
                            "{}\nat symbol {} the longest match ends at {} by rule R{} but token #{} is {:?}",
                            describe(&g, &c.input),
                            pos,
                            e,
                            r,
                            k,
                            t
                        );
                        k += 1;
                        pos = e;
                        st.class("token checked by the language oracle");
                    }
                    None => break,
                }
            }
        }
        st.class_if(g.has_nongreedy(), "non-greedy grammar");
        st.class_if(!c.exp.errs.is_empty(), "input with lexical errors");
        st.class_if(c.input.iter().any(|x| *x > 127), "non-ASCII input");
        note(st, &g, &c, c.exp.toks.len() > 2);
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02(s: &mut Src, st: &mut Stats) -> Check {
    let o = LOpts {
        nongreedy: s.chance(1, 4),
        unicode: s.chance(1, 6),
        eof: s.chance(1, 8),
        cmds: true,
        acts: s.chance(3, 5),
        modes: s.chance(2, 3),
        ops: s.chance(1, 2),
        ..Default::default()
    };
    let g = Rc::new(gen_grammar(s, o));
    let atn = compile(&g);
    let sh = guarded("deserialize", || Shared::new(&atn))?;
    for _ in 0..4 {
        let c = match one(s, st, &g, 40) {
            Some(c) => c,
            None => continue,
        };
        let got = guarded(&describe(&g, &c.input), || run_str(&sh, &g, &c.text))?;
        compare(&g, &c, &got)?;
        let plain = g.rules.iter().all(|r| r.alts.iter().all(|a| a.1.is_empty()));
        st.class_if(!c.exp.acts.is_empty(), "custom actions executed");
        st.class_if(g.nmodes > 1, "several modes");
        st.class_if(c.exp.toks.iter().any(|t| t.channel != 0), "token off the default channel");
        st.class_if(c.exp.toks.iter().any(|t| t.text.is_some()), "text or token overridden by an action");
        note(st, &g, &c, c.exp.toks.len() > 2 && (!plain || !c.exp.acts.is_empty()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn tile_invariants(g: &LGram, input: &[i32], run: &LexRun, sym: &dyn Fn(isize) -> Option<usize>) -> Check {
    // independent of the reference tokenizer: tokens are ordered, disjoint slices with the right text and coordinates
    let mut last = 0usize;
    let n = input.len();
    let mut pos = vec![(1isize, 0isize)];
    for c in input {
        let (l, k) = *pos.last().unwrap();
        pos.push(if *c == 10 { (l + 1, 0) } else { (l, k + 1) });
    }
    for t in &run.toks {
        let a = sym(t.start);
        let b = sym(t.stop + 1);
        let (a, b) = match (a, b) {
            (Some(a), Some(b)) => (a, b),
            _ => return fail(format!("{}\ntoken {:?} is not aligned to symbols", describe(g, input), t)),
        };
        ensure!(last <= a && a <= b && b <= n, "{}\ntoken {:?} overlaps its predecessor or runs backwards", describe(g, input), t);
        ensure!(
            (t.line, t.col) == pos[a],
            "{}\ntoken {:?} should be at line/column {:?}",
            describe(g, input),
            t,
            pos[a]
        );
        if t.ty != -1 && a < n {
            let want: String = input[a..b].iter().map(|c| char::from_u32(*c as u32).unwrap_or('\u{FFFD}')).collect();
            ensure!(t.text == want, "{}\ntoken {:?} should have text {:?}", describe(g, input), t, want);
        }
        last = b;
    }
    let e = run.toks.last();
    ensure!(
        e.map_or(false, |t| t.ty == -1 && sym(t.stop + 1) == Some(n)),
        "{}\nthe last token must be EOF at the end of the input, got {:?}",
        describe(g, input),
        e
    );
    Ok(())
}

fn c03(s: &mut Src, st: &mut Stats) -> Check {
    let surr = s.chance(1, 5);
    let o = LOpts {
        nongreedy: s.chance(1, 3),
        unicode: s.chance(2, 3),
        cmds: s.chance(1, 2),
        modes: s.chance(1, 4),
        acts: s.chance(1, 5),
        surrogates: surr,
        // a predicate in mid-token is evaluated on a position that is moved there and back
        preds: s.chance(1, 3),
        ..Default::default()
    };
    let g = Rc::new(if o.preds { gen_lgram(s, o) } else { gen_grammar(s, o) });
    let atn = compile(&g);
    let sh = guarded("deserialize", || Shared::new(&atn))?;
    for _ in 0..3 {
        let input = gen_linput(s, &g, 40);
        let exp = match ref_lex(&g, &input, LIM) {
            Some(e) => e,
            None => {
                st.skipped += 1;
                continue;
            }
        };
        let ident = Rc::new((0..=input.len()).collect::<Vec<usize>>());
        let want_i = expect(&exp, &input, &|k| k as isize);
        let lim = 2 * input.len() + 16;
        let mut runs: Vec<(&str, LexRun)> = vec![];
        let is_str = input.iter().all(|c| char::from_u32(*c as u32).is_some());
        let d = describe(&g, &input);
        let mut kinds = 0;
        if is_str {
            let text = to_string(&input);
            let rw = raw_str(&input);
            let want = expect(&exp, &input, &|k| rw[k.min(rw.len() - 1)]);
            let map = Rc::new(byte_map(&text));
            let m2 = map.clone();
            let symb = move |k: isize| -> Option<usize> { m2.get(k as usize).copied().filter(|x| *x != usize::MAX) };
            let mut v: Vec<(&str, LexRun)> = vec![];
            v.push(("&str / CommonTokenFactory", guarded(&d, || run_lexer(&sh, &g, map.clone(), InputStream::new(&text[..]), tf(), lim))?));
            v.push(("Box<str> / CommonTokenFactory", guarded(&d, || {
                run_lexer(&sh, &g, map.clone(), InputStream::new_owned(text.clone().into_boxed_str()), tf(), lim)
            })?));
            let which = s.draw(4);
            match which {
                0 => {
                    let f = OwningTokenFactory::default();
                    v.push(("&str / OwningTokenFactory", guarded(&d, || run_lexer(&sh, &g, map.clone(), InputStream::new(&text[..]), &f, lim))?));
                }
                1 => {
                    let f = ArenaCommonFactory::default();
                    v.push(("&str / ArenaCommonFactory", guarded(&d, || run_lexer(&sh, &g, map.clone(), InputStream::new(&text[..]), &f, lim))?));
                }
                2 => {
                    let f = ArenaOwningFactory::default();
                    v.push(("&str / ArenaOwningFactory", guarded(&d, || run_lexer(&sh, &g, map.clone(), InputStream::new(&text[..]), &f, lim))?));
                }
                _ => {
                    let f = OwningTokenFactory::default();
                    v.push(("Box<str> / OwningTokenFactory", guarded(&d, || {
                        run_lexer(&sh, &g, map.clone(), InputStream::new_owned(text.clone().into_boxed_str()), &f, lim)
                    })?));
                }
            }
            for (n, r) in &v {
                if let Some(x) = diff(r, &want) {
                    return fail(format!("{}\nstream/factory {}: {}", d, n, x));
                }
                tile_invariants(&g, &input, r, &symb).map_err(|e| Fail { msg: format!("stream/factory {}: {}", n, e.msg) })?;
            }
            kinds += v.len();
        }
        if input.iter().all(|c| *c <= 0xFF) {
            let v: Vec<u8> = input.iter().map(|c| *c as u8).collect();
            runs.push(("&[u8] / CommonTokenFactory", guarded(&d, || run_lexer(&sh, &g, ident.clone(), InputStream::new(&v[..]), tf(), lim))?));
            let f = OwningTokenFactory::default();
            runs.push(("&[u8] / OwningTokenFactory", guarded(&d, || run_lexer(&sh, &g, ident.clone(), InputStream::new(&v[..]), &f, lim))?));
        }
        if input.iter().all(|c| *c <= 0xFFFF) {
            let v: Vec<u16> = input.iter().map(|c| *c as u16).collect();
            runs.push(("&[u16] / CommonTokenFactory", guarded(&d, || run_lexer(&sh, &g, ident.clone(), InputStream::new(&v[..]), tf(), lim))?));
        }
        {
            let v: Vec<u32> = input.iter().map(|c| *c as u32).collect();
            runs.push(("&[u32] / CommonTokenFactory", guarded(&d, || run_lexer(&sh, &g, ident.clone(), InputStream::new(&v[..]), tf(), lim))?));
            let f = ArenaOwningFactory::default();
            runs.push(("&[u32] / ArenaOwningFactory", guarded(&d, || run_lexer(&sh, &g, ident.clone(), InputStream::new(&v[..]), &f, lim))?));
        }
        let len = input.len() as isize;
        for (n, r) in &runs {
            if let Some(x) = diff(r, &want_i) {
                return fail(format!("{}\nstream/factory {}: {}", d, n, x));
            }
            tile_invariants(&g, &input, r, &|k| if k >= 0 && k <= len { Some(k as usize) } else { None })
                .map_err(|e| Fail { msg: format!("stream/factory {}: {}", n, e.msg) })?;
        }
        if s.chance(1, 3) {
            c03_moved(s, st, &sh, &g, &input, &exp)?;
        }
        kinds += runs.len();
        st.class(&format!("{} stream/factory combinations", kinds));
        st.class_if(!is_str, "input with surrogate code units");
        if exp.toks.len() > 2 {
            st.nontrivial(&d);
            if input.contains(&10) && input.iter().any(|c| *c > 127) {
                st.sample(|| d.clone());
            }
        }
    }
    Ok(())
}

/// line and column set between tokens (as a host that lexes a fragment of a larger text does) carry over
fn c03_moved(s: &mut Src, st: &mut Stats, sh: &Shared, g: &Rc<LGram>, input: &[i32], exp: &LexOut) -> Check {
    let mut want = expect(exp, input, &|k| k as isize);
    let n = want.toks.len();
    let mut set: Vec<Option<(Option<isize>, Option<isize>)>> = vec![None; n];
    for _ in 0..s.range(1, 3) {
        let l = if s.chance(2, 3) { Some(s.draw(1000) as isize) } else { None };
        let c = if s.chance(2, 3) { Some(s.draw(1000) as isize) } else { None };
        let k = if s.chance(1, 2) { 0 } else { s.draw(n) };
        set[k] = Some((l, c));
    }
    let adv = |(mut l, mut c): (isize, isize), a: usize, b: usize| {
        for x in &input[a.min(b)..b] {
            if *x == 10 {
                l += 1;
                c = 0;
            } else {
                c += 1;
            }
        }
        (l, c)
    };
    let (mut at, mut pos) = ((1, 0), 0usize);
    let mut e = 0;
    for k in 0..n {
        if let Some((l, c)) = set[k] {
            at = (l.unwrap_or(at.0), c.unwrap_or(at.1));
        }
        let start = exp.toks[k].start as usize;
        while e < exp.errs.len() && (exp.errs[e].from < start || k + 1 == n) {
            let (l, c) = adv(at, pos, exp.errs[e].from);
            want.errs[e].line = l;
            want.errs[e].col = c;
            e += 1;
        }
        let (l, c) = adv(at, pos, start);
        want.toks[k].line = l;
        want.toks[k].col = c;
        let end = ((exp.toks[k].stop + 1) as usize).max(pos);
        at = adv(at, pos, end);
        pos = end;
    }
    let d = format!("{}\nline/column set before tokens: {:?}", describe(g, input), set);
    let v: Vec<u32> = input.iter().map(|c| *c as u32).collect();
    let got = guarded(&d, || {
        let errs = Rc::new(RefCell::new(vec![]));
        let acts = Rc::new(RefCell::new(vec![]));
        let mut r = LexRun::default();
        {
            let map = Rc::new((0..=input.len()).collect::<Vec<usize>>());
            let mut lx = new_lexer(sh, g, map, InputStream::new(&v[..]), tf(), errs.clone(), acts.clone());
            for x in &set {
                if let Some((l, c)) = x {
                    let i = lx.interpreter.as_mut().unwrap();
                    if let Some(l) = l {
                        i.set_line(*l);
                    }
                    if let Some(c) = c {
                        i.set_char_position_in_line(*c);
                    }
                }
                r.toks.push(otok(&*lx.next_token()));
            }
            r.emits = lx.emits.get();
        }
        r.errs = errs.take();
        r.acts = acts.take();
        r
    })?;
    if let Some(x) = diff(&got, &want) {
        return fail(format!("{}\n{}", d, x));
    }
    st.class("line/column set between tokens");
    Ok(())
}

// ---------------------------------------------------------------- C04

fn c04(s: &mut Src, st: &mut Stats) -> Check {
    let o = LOpts {
        nongreedy: s.chance(1, 3),
        unicode: s.chance(1, 4),
        eof: s.chance(1, 4),
        cmds: s.chance(1, 3),
        modes: s.chance(1, 3),
        recursion: s.chance(1, 4),
        ..Default::default()
    };
    let mut g = gen_grammar(s, o);
    // thin the grammar out so that unmatchable characters and unfinished tokens are common
    g.alphabet.push('#' as i32);
    g.alphabet.push(*s.pick(&['$' as i32, 0xe9, 0x1F600, '\n' as i32]));
    let g = Rc::new(g);
    let atn = compile(&g);
    let sh = guarded("deserialize", || Shared::new(&atn))?;
    for _ in 0..4 {
        let c = match one(s, st, &g, 40) {
            Some(c) => c,
            None => continue,
        };
        let got = if !debug() && !c.exp.errs.is_empty() && s.chance(1, 3) {
            // the listener every lexer starts with prints the same
            let (got, text) = printed(|| guarded(&describe(&g, &c.input), || run_str(&sh, &g, &c.text)));
            let got = got?;
            let want: String = got.errs.iter().map(|e| format!("line {}:{} {}\n", e.line, e.col, e.msg)).collect();
            ensure!(text == want, "{}\nprinted on standard error {:?}\nerrors reported           {:?}", describe(&g, &c.input), text, want);
            got
        } else {
            guarded(&describe(&g, &c.input), || run_str(&sh, &g, &c.text))?
        };
        compare(&g, &c, &got)?;
        // independent of the reference: an input without errors and skips is tiled exactly by its tokens
        let skips = g.rules.iter().any(|r| r.alts.iter().any(|a| a.1.contains(&Cmd::Skip)));
        if got.errs.is_empty() && !skips {
            let mut p = 0;
            for t in &got.toks {
                ensure!(t.start == p, "{}\nno error was reported but {:?} does not start at {}", describe(&g, &c.input), t, p);
                p = t.stop + 1;
            }
            ensure!(p == c.text.len() as isize, "{}\nno error was reported but the tokens end at {}", describe(&g, &c.input), p);
        }
        st.class_if(c.exp.errs.len() > 1, "several errors");
        note(st, &g, &c, !c.exp.errs.is_empty());
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn c05(s: &mut Src, st: &mut Stats) -> Check {
    let o = LOpts {
        nongreedy: s.chance(1, 3),
        unicode: s.chance(1, 4),
        eof: s.chance(1, 6),
        cmds: s.chance(2, 3),
        acts: s.chance(1, 2),
        preds: s.chance(1, 2),
        modes: s.chance(1, 2),
        recursion: s.chance(1, 6),
        ops: s.chance(1, 4),
        ..Default::default()
    };
    let g = Rc::new(gen_grammar(s, o));
    let atn = compile(&g);
    let sh = guarded("deserialize", || Shared::new(&atn))?;
    let n = s.range(2, 5);
    let mut inputs: Vec<Vec<i32>> = vec![];
    for i in 0..n {
        // related inputs share prefixes so that they meet in the same cached states
        let mut v = if i > 0 && s.chance(1, 2) {
            let k = s.draw(i);
            let mut b = inputs[k].clone();
            let cut = s.draw(b.len() + 1);
            b.truncate(cut);
            b
        } else {
            vec![]
        };
        v.extend(gen_linput(s, &g, 30));
        v.truncate(40);
        // ambiguous grammars with actions have exponentially many action sequences: out of scope
        if ref_lex(&g, &v, LIM).is_none() {
            st.skipped += 1;
            v.clear();
        }
        inputs.push(v);
    }
    // cold results
    let mut cold = vec![];
    for i in &inputs {
        let t = to_string(i);
        cold.push(guarded(&describe(&g, i), || run_str(&sh.fresh(), &g, &t))?);
    }
    // warm history with repetitions
    let hist: Vec<usize> = (0..s.range(n, 3 * n)).map(|_| s.draw(n)).collect();
    for (k, i) in hist.iter().enumerate() {
        let t = to_string(&inputs[*i]);
        let r = guarded(&describe(&g, &inputs[*i]), || run_str(&sh, &g, &t))?;
        if let Some(d) = diff(&r, &cold[*i]) {
            let h: Vec<String> = hist[..=k].iter().map(|x| disp(&inputs[*x])).collect();
            return fail(format!(
                "{}\nwith caches warmed by the history {:?} the result differs from cold caches: {}",
                describe(&g, &inputs[*i]),
                h,
                d
            ));
        }
    }
    // two lexers interleaved token by token over the same caches
    if n >= 2 && s.chance(1, 2) {
        let (a, b) = (to_string(&inputs[0]), to_string(&inputs[1]));
        let sched: Vec<bool> = (0..24).map(|_| s.chance(1, 2)).collect();
        let sh2 = sh.fresh();
        let pair = guarded(&format!("{} interleaved with {:?}", describe(&g, &inputs[0]), b), || {
            let mk = |t: &str| (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])), Rc::new(byte_map(t)));
            let (ea, aa, ma) = mk(&a);
            let (eb, ab, mb) = mk(&b);
            let mut la = new_lexer(&sh2, &g, ma, InputStream::new(&a[..]), tf(), ea, aa);
            let mut lb = new_lexer(&sh2, &g, mb, InputStream::new(&b[..]), tf(), eb, ab);
            let (mut ra, mut rb) = (vec![], vec![]);
            let mut k = 0;
            loop {
                let da = ra.last().map_or(false, |t: &OTok| t.ty == -1);
                let db = rb.last().map_or(false, |t: &OTok| t.ty == -1);
                if (da && db) || k > 400 {
                    break;
                }
                let pick_a = if da { false } else if db { true } else { sched[k % sched.len()] };
                if pick_a {
                    ra.push(otok(&*la.next_token()));
                } else {
                    rb.push(otok(&*lb.next_token()));
                }
                k += 1;
            }
            (ra, rb)
        })?;
        ensure!(
            pair.0 == cold[0].toks && pair.1 == cold[1].toks,
            "{}\ninterleaved with input {:?} over shared caches: tokens {:?} / {:?}, alone {:?} / {:?}",
            describe(&g, &inputs[0]),
            b,
            pair.0,
            pair.1,
            cold[0].toks,
            cold[1].toks
        );
        st.class("interleaved pair");
    }
    let distinct: std::collections::HashSet<&Vec<i32>> = inputs.iter().collect();
    if distinct.len() > 1 && cold.iter().any(|r| r.toks.len() > 2) {
        let d = format!("{} history {:?}", g.show(), hist.iter().map(|x| disp(&inputs[*x])).collect::<Vec<_>>());
        st.nontrivial(&d);
        st.sample(|| d.clone());
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

fn c06(s: &mut Src, st: &mut Stats) -> Check {
    let o = LOpts {
        nongreedy: s.chance(1, 4),
        unicode: s.chance(1, 8),
        cmds: s.chance(1, 3),
        acts: s.chance(1, 3),
        modes: s.chance(1, 4),
        preds: true,
        ..Default::default()
    };
    let g = Rc::new(gen_lgram(s, o));
    let atn = compile(&g);
    let sh = guarded("deserialize", || Shared::new(&atn))?;
    for _ in 0..4 {
        let c = match one(s, st, &g, 40) {
            Some(c) => c,
            None => continue,
        };
        let got = guarded(&describe(&g, &c.input), || run_str(&sh, &g, &c.text))?;
        compare(&g, &c, &got)?;
        // would the outcome differ if every predicate held?
        let mut g2 = (*g).clone();
        g2.pred_mask = vec![7; g2.pred_mask.len()];
        let matters = ref_lex(&g2, &c.input, LIM).map_or(false, |r| r != c.exp);
        st.class_if(matters, "a false predicate changed the token sequence");
        note(st, &g, &c, matters);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a case is a random lexer grammar (literals, classes, negation, wildcard, nesting, optional/star/plus greedy and non-greedy, fragments, recursion, EOF; one in five a realistic language lexer) and four inputs (rule sentences mixed with random characters), tokenized and compared with a reference tokenizer and, when greedy, with a longest-match/first-rule language oracle; non-trivial: at least two tokens before EOF; distinct by grammar and input",
            f: c01,
            directed: None,
            quick: 800_000,
            thorough: 20_000_000,
            assumptions: &["the harness's grammar compiler emits the serialized form the ANTLR tool would emit (checked against the shipped grammars)"],
        },
        Prop {
            id: "C02",
            rule: "as C01 with lexer commands (skip, more, type, channel, mode, pushMode, popMode, singly and combined), several modes, custom actions at any position and actions that use the lexer API (type, channel, text, modes, token override, before_emit); token sequence, action order, action positions and texts compared with the reference; non-trivial: at least two tokens and a command or action in the grammar",
            f: c02,
            directed: None,
            quick: 700_000,
            thorough: 20_000_000,
            assumptions: &["actions in fragment rules do not run, as in ANTLR"],
        },
        Prop {
            id: "C03",
            rule: "as C01 over &str, Box<str>, &[u8], &[u16], &[u32] (with surrogate code units where possible) and the four token factories; starts, stops, text, lines and columns compared with the reference and with a slice/newline-count invariant; non-trivial: at least two tokens",
            f: c03,
            directed: None,
            quick: 250_000,
            thorough: 6_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C04",
            rule: "as C01 with alphabets containing characters no rule matches and truncated tokens; error count, line, column, reported text, resumption point and tokens compared with the reference; non-trivial: at least one lexical error",
            f: c04,
            directed: None,
            quick: 700_000,
            thorough: 20_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C05",
            rule: "a case is a random grammar (commands, actions, predicates, modes), 2-5 prefix-sharing inputs and a history of runs over shared caches, each compared with a run over cold caches, and optionally two lexers interleaved token by token; non-trivial: two distinct inputs, one with at least two tokens",
            f: c05,
            directed: None,
            quick: 250_000,
            thorough: 6_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C06",
            rule: "as C01 with predicates at random positions whose value depends on the input position; compared with the reference; non-trivial: forcing all predicates true would change the outcome",
            f: c06,
            directed: None,
            quick: 700_000,
            thorough: 20_000_000,
            assumptions: &["predicates are pure functions of the input position, as ANTLR requires"],
        },
    ]
}
