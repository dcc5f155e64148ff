//! How far recognizers look ahead, and what they keep in the shared caches.
use crate::engine::*;
use crate::ensure;
use crate::lexdrv::*;
use crate::lexg;
use crate::pardrv::*;
use crate::parg::*;
use crate::props::{lex, par};
use crate::Prop;
use antlr_rust::dfa::DFA;
use antlr_rust::dfa_state::DFAState;
use antlr_rust::input_stream::InputStream;
use antlr_rust::token::Token;
use antlr_rust::token_factory::CommonTokenFactory;
use antlr_rust::TokenSource;
use std::collections::HashMap;
use std::rc::Rc;

const HEAVY: usize = par::HEAVY;

// ---------------------------------------------------------------- C28

fn c28(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(1, 3) {
        c28_lexer(s, st)
    } else {
        c28_parser(s, st)
    }
}

fn c28_lexer(s: &mut Src, st: &mut Stats) -> Check {
    let o = lexg::LOpts { nongreedy: s.chance(1, 2), eof: s.chance(1, 4), recursion: s.chance(1, 3), ..Default::default() };
    let g = Rc::new(lex::gen_grammar(s, o));
    let sh = Shared::new(&lexg::compile(&g));
    for _ in 0..4 {
        let input = lexg::gen_linput(s, &g, 40);
        let Some(exp) = lexg::ref_lex(&g, &input, lex::LIM) else {
            st.skipped += 1;
            continue;
        };
        let d = || lex::describe(&g, &input);
        let v: Vec<u32> = input.iter().map(|c| *c as u32).collect();
        let far: Vec<isize> = guarded(&d(), || {
            let map = Rc::new((0..=v.len()).collect::<Vec<usize>>());
            let tf = <&CommonTokenFactory as Default>::default();
            let cnt = Counting::new(InputStream::new(&v[..]), 4000 + (v.len() * v.len() * 20 + v.len() * 400) as u64);
            let far = cnt.far.clone();
            let mut lx = new_lexer(&sh, &g, map, cnt, tf, Default::default(), Default::default());
            let mut out = vec![];
            loop {
                let t = lx.next_token();
                out.push(far.get());
                if t.get_token_type() == -1 || out.len() > 2 * v.len() + 16 {
                    return out;
                }
            }
        })?;
        for (i, (a, b)) in far.iter().zip(&exp.far).enumerate() {
            ensure!(*a <= *b as isize, "{}\ntoken {} ({:?}): the lexer looked at position {}, nothing can be matched past position {}", d(), i, exp.toks[i], a, b);
        }
        if exp.toks.len() >= 3 {
            st.class("lexer");
            st.nontrivial(&d());
            st.sample(|| d());
        }
    }
    Ok(())
}

fn c28_parser(s: &mut Src, st: &mut Stats) -> Check {
    let o = GOpt { dense: s.chance(2, 3), lr: false, preds: false, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    for _ in 0..s.range(1, 4) {
        let w = par::bad_input(s, &g, 14);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let opts = Opts { looks: true, mode: s.draw(3) as u8, bail: s.chance(1, 4), trees: false, ..Default::default() };
        let out = par::go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        let mut deep = 0;
        for (dec, at, far, stack) in out.log.looks.borrow().iter() {
            let p = *at as usize;
            let used = (far - at + 1) as usize;
            if used <= 1 {
                continue;
            }
            let Some(k) = c.lookahead_need(*dec, None, false, &w, p) else { continue };
            let mut need = k;
            if opts.mode != 0 {
                let Some(k2) = c.lookahead_need(*dec, Some(&c.follows(stack)), opts.mode == 1, &w, p) else { continue };
                need = need.max(k2);
            }
            deep += 1;
            st.class(if used < need { "decided before the bound" } else { "decided at the bound" });
            ensure!(
                used <= need,
                "{}\ndecision {} at token {} (rules entered from {:?}), mode {}: looked at {} tokens although {} settle it",
                par::describe(&c, &w),
                dec,
                at,
                stack,
                opts.mode,
                used,
                need
            );
        }
        if deep > 0 {
            let d = par::describe(&c, &w);
            st.nontrivial(&d);
            st.sample(|| d.clone());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

fn states(sh: &Shared) -> usize {
    sh.dfas.iter().map(|d| d.read().states.len()).sum()
}
/// no configuration set may have two states; `what` for messages
fn no_twins(sh: &Shared, what: &dyn Fn() -> String) -> Check {
    for (i, d) in sh.dfas.iter().enumerate() {
        let d = d.read();
        let mut seen = std::collections::HashMap::new();
        for q in &d.states {
            let t = format!("{:?}", q.configs);
            // how often a configuration left its rule does not tell sets apart, only whether any did
            let mut n = String::new();
            let mut rest = &t[..];
            let mut dips = false;
            while let Some(k) = rest.find(",up=") {
                n += &rest[..k];
                rest = rest[k + 4..].trim_start_matches(|c: char| c.is_ascii_digit());
                dips = true;
            }
            n += rest;
            if q.configs.length() == 0 {
                continue;
            }
            if let Some(o) = seen.insert((n, dips), q.state_number) {
                return fail(format!("{}\nautomaton of decision {}: states {} and {} both stand for {}", what(), i, o, q.state_number, t));
            }
        }
    }
    Ok(())
}

fn c29(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(1, 3) {
        return c29_lexer(s, st);
    }
    let o = GOpt { dense: s.chance(1, 2), lr: s.chance(1, 3), preds: s.chance(1, 5), entry: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let plain = !o.lr && g.npred == 0;
    let truth: Vec<bool> = (0..g.npred).map(|_| s.chance(1, 2)).collect();
    for _ in 0..s.range(1, 4) {
        let mut w = par::bad_input(s, &g, 12);
        // repeat a part
        if !w.is_empty() && s.chance(1, 2) {
            let a = s.draw(w.len());
            let b = a + 1 + s.draw((w.len() - a).min(4));
            let part = w[a..b].to_vec();
            for _ in 0..s.range(1, 6) {
                w.splice(a..a, part.iter().copied());
            }
        }
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let opts = Opts { mode: s.draw(3) as u8, bail: s.chance(1, 4), trees: false, truth: truth.clone(), ..Default::default() };
        let toks = plain_toks(&w);
        par::go(&c, &sh, &w, &toks, &opts)?;
        let n1 = states(&sh);
        par::go(&c, &sh, &w, &toks, &opts)?;
        let n2 = states(&sh);
        let d = || par::describe(&c, &w);
        ensure!(n1 == n2, "{}\nmode {}: the caches hold {} states after the parse and {} after the same parse again", d(), opts.mode, n1, n2);
        if plain {
            no_twins(&sh, &d)?;
        }
        if n1 >= 4 {
            st.class(if plain { "parser" } else { "parser with predicates or left recursion" });
            st.nontrivial(&d());
            st.sample(|| d());
        }
    }
    Ok(())
}
fn c29_lexer(s: &mut Src, st: &mut Stats) -> Check {
    let o = lexg::LOpts { nongreedy: s.chance(1, 3), eof: s.chance(1, 4), recursion: s.chance(1, 3), ..Default::default() };
    let g = Rc::new(lex::gen_grammar(s, o));
    let sh = Shared::new(&lexg::compile(&g));
    let plain = !g.has_nongreedy() && !g.rules.iter().any(|r| r.alts.iter().any(|a| !a.1.is_empty()));
    for _ in 0..3 {
        let input = lexg::gen_linput(s, &g, 40);
        if lexg::ref_lex(&g, &input, lex::LIM).is_none() {
            st.skipped += 1;
            continue;
        }
        let text = to_string(&input);
        let d = || lex::describe(&g, &input);
        guarded(&d(), || lex::run_str(&sh, &g, &text))?;
        let n1 = states(&sh);
        guarded(&d(), || lex::run_str(&sh, &g, &text))?;
        let n2 = states(&sh);
        ensure!(n1 == n2, "{}\nthe caches hold {} states after tokenizing and {} after tokenizing the same text again", d(), n1, n2);
        if plain {
            no_twins(&sh, &d)?;
        }
        if n1 >= 4 {
            st.class("lexer");
            st.nontrivial(&d());
            st.sample(|| d());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

/// a printed automaton: state text -> (label -> state text)
type Dumped = HashMap<String, HashMap<String, String>>;

/// the lines of one automaton, checked against its public description
fn read_dump(dfa: &DFA, text: &str, label: &dyn Fn(usize) -> String) -> Result<Dumped, String> {
    let mut want = vec![];
    // the start states per precedence are kept as edges of an extra state, which is not part of the automaton
    let extra = if dfa.is_precedence_dfa() { dfa.s0 } else { None };
    let base = 1 + extra.is_some() as usize;
    let name = |q: &DFAState| {
        let mut t = format!("{}s{}{}", if q.is_accept_state { ":" } else { "" }, q.state_number - base, if q.requires_full_context { "^" } else { "" });
        if q.is_accept_state {
            t += "=>";
            if q.predicates.is_empty() {
                t += &q.prediction.to_string();
            } else {
                t += "[";
            }
        }
        t
    };
    for q in &dfa.states {
        if Some(q.state_number) == extra {
            continue;
        }
        for (i, e) in q.edges.iter().enumerate() {
            if *e != 0 && *e != usize::MAX {
                want.push((name(q), label(i), name(&dfa.states[*e])));
            }
        }
    }
    let mut out = Dumped::new();
    let mut n = 0;
    // predicates are printed in some form of their own
    let cut = |t: &str| t.find("=>[").map_or(t, |k| &t[..k + 3]).to_string();
    for line in text.lines() {
        let e = (|| {
            // a label can contain '-' or '->'
            let a = line.find('-')?;
            let b = line.rfind("->")?;
            Some((cut(&line[..a]), line.get(a + 1..b)?.to_string(), cut(&line[b + 2..])))
        })();
        let e = e.ok_or_else(|| format!("unreadable line {:?}", line))?;
        if want.get(n) != Some(&e) {
            return Err(format!("line {} is {:?}, the automaton has {:?}", n, line, want.get(n)));
        }
        n += 1;
        if out.entry(e.0.clone()).or_default().insert(e.1.clone(), e.2).is_some() {
            return Err(format!("two edges labelled {:?} from {}", e.1, e.0));
        }
    }
    if n != want.len() {
        return Err(format!("{} edges printed, the automaton has {}: {:?}", n, want.len(), want));
    }
    Ok(out)
}

fn c30(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(1, 3) {
        return c30_lexer(s, st);
    }
    let o = GOpt { dense: s.chance(1, 2), lr: s.chance(1, 3), preds: s.chance(1, 4), eof: true, ..GOpt::default() };
    let g = gen_gram(s, &o);
    let c = compile(&g);
    let sh = Shared::new(&c.atn);
    let truth: Vec<bool> = (0..g.npred).map(|_| s.chance(1, 2)).collect();
    for _ in 0..s.range(1, 3) {
        let w = gen_input(s, &g, 12);
        if c.heavy(&w, HEAVY) {
            st.skipped += 1;
            continue;
        }
        let opts = Opts { mode: s.draw(3) as u8, trees: false, dump: true, truth: truth.clone(), ..Default::default() };
        let out = par::go(&c, &sh, &w, &plain_toks(&w), &opts)?;
        let d = || format!("{}\ndumped after the parse:\n{}", par::describe(&c, &w), out.dump);
        // decisions that were ever made, in order, an empty line between two of them
        let mut parts: Vec<(usize, String)> = vec![];
        for line in out.dump.lines() {
            if let Some(n) = line.strip_prefix("Decision ").and_then(|l| l.strip_suffix(":")).and_then(|l| l.parse().ok()) {
                if let Some(p) = parts.last_mut() {
                    ensure!(p.1.ends_with("\n\n") || p.1 == "\n", "{}\nno empty line in front of {:?}", d(), line);
                    p.1.pop();
                }
                parts.push((n, String::new()));
                continue;
            }
            ensure!(!parts.is_empty(), "{}\nunexpected line {:?}", d(), line);
            parts.last_mut().unwrap().1 += &format!("{}\n", line);
        }
        let made: Vec<usize> = sh.dfas.iter().enumerate().filter(|(_, q)| {
            let q = q.read();
            q.states.len() > 1 + q.is_precedence_dfa() as usize
        }).map(|x| x.0).collect();
        ensure!(parts.iter().map(|p| p.0).collect::<Vec<_>>() == made, "{}\ndecisions with a cache are {:?}", d(), made);
        let label = |i: usize| if i == 0 { "EOF".to_string() } else { display_name(i as i32 - 1) };
        let mut graphs = HashMap::new();
        for (k, text) in &parts {
            let q = sh.dfas[*k].read();
            match read_dump(&q, text, &label) {
                Ok(x) => graphs.insert(*k, x),
                Err(m) => return fail(format!("{}\ndecision {}: {}", d(), k, m)),
            };
        }
        // what was predicted can be read off
        let mut read = 0;
        if out.log.errs.borrow().is_empty() {
            for (k, at, alt) in out.log.preds.borrow().iter() {
                let Some(gr) = graphs.get(k) else {
                    return fail(format!("{}\ndecision {} was made and is not dumped", d(), k));
                };
                let starts: Vec<String> = if sh.dfas[*k].read().is_precedence_dfa() { gr.keys().filter(|k| !k.starts_with(':')).cloned().collect() } else { vec!["s0".into()] };
                let run = |start: &String| -> bool {
                    let mut q = start.clone();
                    let mut p = *at as usize;
                    loop {
                        if let Some(k) = q.find("=>") {
                            // a conflict is settled in full context, or by predicates
                            return q.contains('^') || q[k + 2..].starts_with('[') || q[k + 2..] == alt.to_string();
                        }
                        let t = w.get(p).copied().unwrap_or(-1);
                        match gr.get(&q).and_then(|m| m.get(&label((t + 1) as usize))) {
                            Some(n) => q = n.clone(),
                            None => return false,
                        }
                        p += 1;
                        if p > w.len() + gr.len() + 2 {
                            return false;
                        }
                    }
                };
                read += 1;
                ensure!(starts.iter().any(run), "{}\ndecision {} at token {} was alternative {}: the dump leads elsewhere", d(), k, at, alt);
            }
        }
        if read > 0 {
            st.class(if o.lr { "parser, left recursion allowed" } else { "parser" });
            st.class_if(out.dump.contains("=>["), "predicates in the dump");
            st.class_if(out.dump.contains('^'), "full context in the dump");
            let d = par::describe(&c, &w);
            if out.dump.lines().count() >= 4 {
                st.nontrivial(&d);
                st.sample(|| d.clone());
            }
        }
    }
    Ok(())
}
fn c30_lexer(s: &mut Src, st: &mut Stats) -> Check {
    let o = lexg::LOpts { nongreedy: s.chance(1, 3), eof: s.chance(1, 4), recursion: s.chance(1, 3), ..Default::default() };
    let g = Rc::new(lex::gen_grammar(s, o));
    let sh = Shared::new(&lexg::compile(&g));
    let plain = !g.rules.iter().any(|r| r.alts.iter().any(|a| !a.1.is_empty()));
    for _ in 0..s.range(1, 2) {
        let input = lexg::gen_linput(s, &g, 40);
        let Some(exp) = lexg::ref_lex(&g, &input, lex::LIM) else {
            st.skipped += 1;
            continue;
        };
        let text = to_string(&input);
        guarded("lex", || lex::run_str(&sh, &g, &text))?;
        for (k, q) in sh.dfas.iter().enumerate() {
            let q = q.read();
            let dump = q.to_lexer_string();
            let d = || format!("{}\nautomaton of mode {}:\n{}", lex::describe(&g, &input), k, dump);
            // a line break is a label, too
            let one = dump.replace("'\n'", "'\\n'").replace("'\r'", "'\\r'");
            let label = |i: usize| match i {
                10 => "'\\n'".into(),
                13 => "'\\r'".into(),
                _ => format!("'{}'", char::from_u32(i as u32).unwrap()),
            };
            let gr = match read_dump(&q, &one, &label) {
                Ok(gr) => gr,
                Err(m) => return fail(format!("{}\n{}", d(), m)),
            };
            if k > 0 || !plain {
                continue;
            }
            // every token can be read off
            for t in &exp.toks {
                // the end of input is no symbol of the automaton
                if t.start > t.stop || t.ty == -1 || o.eof && t.stop as usize + 1 == input.len() {
                    continue;
                }
                let word = &input[t.start as usize..=t.stop as usize];
                if word.iter().any(|c| *c as u32 > 127) {
                    continue;
                }
                let mut q = "s0".to_string();
                for ch in word {
                    match gr.get(&q).and_then(|m| m.get(&label(*ch as usize))) {
                        Some(n) => q = n.clone(),
                        None => return fail(format!("{}\ntoken {:?}: no edge for {:?} from {}", d(), t, ch, q)),
                    }
                }
                ensure!(q.starts_with(':') && q.ends_with(&format!("=>{}", t.ty)), "{}\ntoken {:?}: the dump leads to {}", d(), t, q);
                st.class("token read off a lexer dump");
            }
        }
        st.class("lexer");
        let d = lex::describe(&g, &input);
        if exp.toks.len() >= 3 {
            st.nontrivial(&d);
            st.sample(|| d.clone());
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let p = |id: &'static str, f: fn(&mut Src, &mut Stats) -> Check, q, t, rule: &'static str| Prop { id, rule, f, directed: None, quick: q, thorough: t, assumptions: &[] };
    vec![
        p("C28", c28, 40000, 2000000, "random parser grammars without predicates and left recursion (two thirds) and lexer grammars, several inputs each, wrong ones included, over one cache; the stream records the last symbol looked at during every prediction / token; oracle: simulation of the viable alternatives over the automaton with known and with unknown callers, and of the viable lexer rules. Non-trivial: a prediction that looks at >=2 tokens and is settled before the end of input, or >=3 tokens"),
        p("C29", c29, 30000, 1500000, "random grammar (parser, lexer; left recursion, predicates), inputs with repeated parts, wrong ones included, each recognized twice over one cache; oracle: the second run adds no state and no two states of an automaton stand for the same configurations. Non-trivial: caches hold >=4 states"),
        p("C30", c30, 30000, 1500000, "random grammar (parser, lexer; left recursion, predicates, EOF), 1-3 inputs over one cache, dumped after each; oracle: the printed lines are the automata's edges in order, and following them along the input leads to every prediction made. Non-trivial: >=4 lines and a prediction / 3 tokens"),
    ]
}
