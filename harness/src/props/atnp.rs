//! C20: the deserialized ATN is the serialized one.
use crate::atnc::{self, norm, Atn, LAct, St, Tr};
use crate::engine::*;
use crate::ensure;
use crate::{lexg, parg};
use crate::Prop;
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::atn_state::{ATNBlockStart, ATNDecisionState, ATNStateType};
use antlr_rust::transition::*;
use std::collections::HashSet;

fn load(s: &str) -> Result<ATN, Fail> {
    guarded("deserialize", || ATNDeserializer::new(None).deserialize(s.chars()))
}

/// comparable form of a transition
fn want_tr(t: &Tr) -> Tr {
    match t {
        Tr::Set(to, r) => Tr::Set(*to, norm(r.clone())),
        Tr::NotSet(to, r) => Tr::NotSet(*to, norm(r.clone())),
        x => x.clone(),
    }
}

fn ranges_of(s: &antlr_rust::interval_set::IntervalSet, hint: &[(i32, i32)]) -> atnc::Ranges {
    // read the set through its public queries only
    let mut pts: Vec<i32> = vec![-2, -1, 0, 1, 0xFFFF, 0x10000, 0x10FFFF, 0x110000];
    for (a, b) in hint {
        for x in [*a, *b] {
            pts.extend([x - 1, x, x + 1]);
        }
    }
    pts.sort();
    pts.dedup();
    let mut r: atnc::Ranges = vec![];
    for p in pts {
        if s.contains(p as isize) {
            r.push((p, p));
        }
    }
    r.push((s.length() as i32, -9)); // cardinality rides along
    r
}
fn ranges_want(h: &[(i32, i32)]) -> atnc::Ranges {
    let n = norm(h.to_vec());
    let mut pts: Vec<i32> = vec![-2, -1, 0, 1, 0xFFFF, 0x10000, 0x10FFFF, 0x110000];
    for (a, b) in h {
        for x in [*a, *b] {
            pts.extend([x - 1, x, x + 1]);
        }
    }
    pts.sort();
    pts.dedup();
    let mut r: atnc::Ranges = pts.iter().filter(|p| atnc::in_ranges(&n, **p)).map(|p| (*p, *p)).collect();
    r.push((n.iter().map(|x| x.1 - x.0 + 1).sum(), -9));
    r
}

fn same_tr(want: &Tr, t: &dyn Transition) -> Result<bool, String> {
    use TransitionType::*;
    let show = || format!("{:?}", t);
    let ok = match (want, t.get_serialization_type()) {
        (Tr::Eps(to), TRANSITION_EPSILON) => t.get_target() == *to,
        (Tr::Range(to, a, b), TRANSITION_RANGE) => {
            let x = t.cast::<RangeTransition>();
            x.target == *to && x.start == *a as isize && x.stop == *b as isize
        }
        (Tr::Rule { start, rule, prec, follow }, TRANSITION_RULE) => {
            let x = t.cast::<RuleTransition>();
            x.target == *start && x.rule_index == *rule as isize && x.precedence == *prec as isize && x.follow_state == *follow
        }
        (Tr::Pred { to, rule, idx, ctx }, TRANSITION_PREDICATE) => {
            let x = t.cast::<PredicateTransition>();
            x.target == *to && x.rule_index == *rule as isize && x.pred_index == *idx as isize && x.is_ctx_dependent == *ctx
        }
        (Tr::Atom(to, a), TRANSITION_ATOM) => {
            let x = t.cast::<AtomTransition>();
            x.target == *to && x.label == *a as isize
        }
        (Tr::Action { to, rule, idx, ctx }, TRANSITION_ACTION) => {
            let x = t.cast::<ActionTransition>();
            // 0xFFFF stands for "no action"
            let i = if *idx == 0xFFFF && x.action_index == -1 { -1 } else { *idx as isize };
            x.target == *to && x.rule_index == *rule as isize && x.action_index == i && x.is_ctx_dependent == *ctx
        }
        (Tr::Set(to, r), TRANSITION_SET) => {
            let x = t.cast::<SetTransition>();
            x.target == *to && ranges_of(&x.set, r) == ranges_want(r)
        }
        (Tr::NotSet(to, r), TRANSITION_NOTSET) => {
            let x = t.cast::<NotSetTransition>();
            x.target == *to && ranges_of(&x.set, r) == ranges_want(r)
        }
        (Tr::Wild(to), TRANSITION_WILDCARD) => t.get_target() == *to,
        (Tr::Prec(to, p), TRANSITION_PRECEDENCE) => {
            let x = t.cast::<PrecedencePredicateTransition>();
            x.target == *to && x.precedence == *p as isize
        }
        _ => false,
    };
    if !ok {
        return Err(show());
    }
    let eps = !matches!(want, Tr::Range(..) | Tr::Atom(..) | Tr::Set(..) | Tr::NotSet(..) | Tr::Wild(..));
    Ok(t.is_epsilon() == eps)
}

/// symbols the transition must match, by definition
fn matches(t: &Tr, c: i32, lo: i32, hi: i32) -> bool {
    match t {
        Tr::Range(_, a, b) => *a <= c && c <= *b,
        Tr::Atom(_, a) => c == *a,
        Tr::Set(_, r) => atnc::in_ranges(r, c),
        Tr::NotSet(_, r) => lo <= c && c <= hi && !atnc::in_ranges(r, c),
        Tr::Wild(_) => lo <= c && c <= hi,
        _ => false,
    }
}

pub fn compare(a: &Atn, r: &ATN) -> Check {
    let ty = format!("{:?}", r.grammar_type);
    ensure!(ty == if a.lexer { "LEXER" } else { "PARSER" }, "grammar type {}", ty);
    ensure!(r.max_token_type == a.max_tok as isize, "max_token_type {} instead of {}", r.max_token_type, a.max_tok);
    ensure!(r.states.len() == a.states.len(), "{} states instead of {}", r.states.len(), a.states.len());
    ensure!(r.rule_to_start_state == a.rule_start, "rule_to_start_state {:?}, should be {:?}", r.rule_to_start_state, a.rule_start);
    ensure!(r.mode_to_start_state == a.modes, "mode_to_start_state {:?}, should be {:?}", r.mode_to_start_state, a.modes);
    ensure!(r.decision_to_state == a.decisions, "decision_to_state {:?}, should be {:?}", r.decision_to_state, a.decisions);
    if a.lexer {
        let w: Vec<isize> = a.rule_tok.iter().map(|x| *x as isize).collect();
        ensure!(r.rule_to_token_type == w, "rule_to_token_type {:?}, should be {:?}", r.rule_to_token_type, w);
    }
    let nr = a.rule_start.len();
    let mut stop = vec![usize::MAX; nr];
    for (i, s) in a.states.iter().enumerate() {
        if s.ty == atnc::RULE_STOP {
            stop[s.rule] = i;
        }
    }
    ensure!(r.rule_to_stop_state == stop, "rule_to_stop_state {:?}, should be {:?}", r.rule_to_stop_state, stop);
    // edges back from the stop state to every follow state
    let mut back: Vec<Vec<(usize, isize)>> = vec![vec![]; a.states.len()];
    for s in &a.states {
        for t in &s.tr {
            if let Tr::Rule { start, prec, follow, .. } = t {
                let rule = a.states[*start].rule;
                let lr = a.states[a.rule_start[rule]].prec_rule;
                let v = &mut back[stop[rule]];
                let e = (*follow, if lr && *prec == 0 { rule as isize } else { -1 });
                if !v.iter().any(|x| x.0 == e.0) {
                    v.push(e);
                }
            }
        }
    }
    for (i, s) in a.states.iter().enumerate() {
        let q = &r.states[i];
        let at = format!("state {} (type {}, rule {})", i, s.ty, s.rule as isize);
        ensure!(q.get_state_number() == i, "{}: state number {}", at, q.get_state_number());
        ensure!(q.get_state_type_id() == s.ty as isize, "{}: type id {}", at, q.get_state_type_id());
        ensure!(q.get_rule_index() == s.rule, "{}: rule index {}", at, q.get_rule_index() as isize);
        let dec = a.decisions.iter().rposition(|x| *x == i).map_or(-1, |x| x as isize);
        let bad = || fail(format!("{}: became {:?}, should have extra {} nongreedy {} decision {} left recursive {}", at, q.get_state_type(), s.extra, s.nongreedy, dec, s.prec_rule));
        let chk_dec = |decision: isize, nongreedy: bool| decision == dec && nongreedy == s.nongreedy;
        let ok = match (s.ty, q.get_state_type()) {
            (atnc::BASIC, ATNStateType::BasicState) => true,
            (atnc::RULE_START, ATNStateType::RuleStartState { stop_state, is_left_recursive }) => {
                // only the state registered for the rule is linked to its stop state
                (a.rule_start[s.rule] != i || *stop_state == stop[s.rule]) && *is_left_recursive == s.prec_rule
            }
            (atnc::RULE_STOP, ATNStateType::RuleStopState) => true,
            (atnc::BLOCK_END, ATNStateType::BlockEndState(_)) => true,
            (atnc::STAR_LOOP_BACK, ATNStateType::StarLoopbackState) => true,
            (atnc::LOOP_END, ATNStateType::LoopEndState(l)) => *l == s.extra,
            (ty, ATNStateType::DecisionState { decision, nongreedy, state }) => {
                chk_dec(*decision, *nongreedy)
                    && match (ty, state) {
                        (atnc::BLOCK_START, ATNDecisionState::BlockStartState { end_state, en: ATNBlockStart::BasicBlockStart }) => *end_state == s.extra,
                        (atnc::PLUS_BLOCK_START, ATNDecisionState::BlockStartState { end_state, en: ATNBlockStart::PlusBlockStart(_) }) => *end_state == s.extra,
                        (atnc::STAR_BLOCK_START, ATNDecisionState::BlockStartState { end_state, en: ATNBlockStart::StarBlockStart }) => *end_state == s.extra,
                        (atnc::TOKEN_START, ATNDecisionState::TokenStartState) => true,
                        (atnc::PLUS_LOOP_BACK, ATNDecisionState::PlusLoopBack) => true,
                        (atnc::STAR_LOOP_ENTRY, ATNDecisionState::StarLoopEntry { is_precedence, .. }) => {
                            // the loop of a left-recursive rule: its exit leads to a loop end and then out of the rule
                            let lr = s.rule != usize::MAX && a.states[a.rule_start[s.rule]].prec_rule;
                            let want = lr && s.tr.last().map_or(false, |t| {
                                let l = &a.states[target(t)];
                                l.ty == atnc::LOOP_END && !l.tr.is_empty() && l.tr.iter().all(is_eps) && a.states[target(&l.tr[0])].ty == atnc::RULE_STOP
                            });
                            *is_precedence == want
                        }
                        _ => false,
                    }
            }
            _ => false,
        };
        if !ok {
            return bad();
        }
        // transitions
        let mut want: Vec<Tr> = vec![];
        if s.ty != atnc::RULE_STOP {
            for t in &s.tr {
                let t = want_tr(t);
                if !want.contains(&t) {
                    want.push(t);
                }
            }
        }
        let got = q.get_transitions();
        if s.ty == atnc::RULE_STOP {
            let mut g: Vec<(usize, isize)> = vec![];
            for t in got.iter() {
                ensure!(t.get_serialization_type() == TransitionType::TRANSITION_EPSILON, "{}: stop state has edge {:?}", at, t);
                let e = t.cast::<EpsilonTransition>();
                g.push((e.target, e.outermost_precedence_return));
            }
            g.sort();
            let mut w = back[i].clone();
            w.sort();
            ensure!(g == w, "{}: return edges {:?}, should be {:?}", at, g, w);
            continue;
        }
        ensure!(got.len() == want.len(), "{}: {} edges, should be {}: {:?} vs {:?}", at, got.len(), want.len(), got, want);
        for (w, g) in want.iter().zip(got.iter()) {
            match same_tr(w, g.as_ref()) {
                Ok(true) => {}
                Ok(false) => return fail(format!("{}: edge {:?} has is_epsilon {}", at, w, g.is_epsilon())),
                Err(e) => return fail(format!("{}: edge {} should be {:?}", at, e, w)),
            }
            if !g.is_epsilon() {
                for c in [-1, 0, 1, 5, 9, 10, 97, 255, 0xD800, 0xFFFF, 0x10000, 0x10FFFF] {
                    for (lo, hi) in [(0, 0x10FFFF), (1, 9)] {
                        let m = g.matches(c as isize, lo as isize, hi as isize);
                        ensure!(m == matches(w, c, lo, hi), "{}: edge {:?} matches({}, {}, {}) is {}", at, w, c, lo, hi, m);
                    }
                }
            }
        }
        let eo = !want.is_empty() && want.iter().all(is_eps);
        ensure!(q.has_epsilon_only_transitions() == eo, "{}: has_epsilon_only_transitions is {}", at, !eo);
    }
    Ok(())
}

fn is_eps(t: &Tr) -> bool {
    !matches!(t, Tr::Range(..) | Tr::Atom(..) | Tr::Set(..) | Tr::NotSet(..) | Tr::Wild(..))
}
fn target(t: &Tr) -> usize {
    match t {
        Tr::Eps(x) | Tr::Range(x, ..) | Tr::Atom(x, _) | Tr::Set(x, _) | Tr::NotSet(x, _) | Tr::Wild(x) | Tr::Prec(x, _) => *x,
        Tr::Rule { start, .. } => *start,
        Tr::Pred { to, .. } | Tr::Action { to, .. } => *to,
    }
}

/// independent reader of the serialized form
pub fn read(s: &str) -> Result<Atn, String> {
    let mut it = s.chars().map(|c| {
        let c = c as u32;
        if c > 0xFFFF { c - 0x3000 } else { c }
    });
    let v = it.next().ok_or("empty")?;
    if v != 3 {
        return Err(format!("version {}", v));
    }
    let w: Vec<u32> = it.map(|c| (c + 0x10000 - 2) & 0xFFFF).collect();
    let mut p = 0usize;
    let mut nx = || -> Result<u32, String> {
        p += 1;
        w.get(p - 1).copied().ok_or("truncated".to_string())
    };
    for x in [0x6089u32, 0xA728, 0x8131, 0xB9EB, 0x417A, 0x3BE5, 0x7784, 0x5962] {
        if nx()? != x {
            return Err("uuid".into());
        }
    }
    let mut a = Atn { lexer: nx()? == 0, max_tok: nx()?, ..Default::default() };
    for _ in 0..nx()? {
        let ty = nx()?;
        let rule = nx()?;
        let extra = match ty {
            atnc::BLOCK_START | atnc::PLUS_BLOCK_START | atnc::STAR_BLOCK_START | atnc::LOOP_END => nx()? as usize,
            _ => 0,
        };
        a.states.push(St { ty, rule: if rule == 0xFFFF { usize::MAX } else { rule as usize }, extra, nongreedy: false, prec_rule: false, tr: vec![] });
    }
    for _ in 0..nx()? {
        a.states[nx()? as usize].nongreedy = true;
    }
    for _ in 0..nx()? {
        a.states[nx()? as usize].prec_rule = true;
    }
    for _ in 0..nx()? {
        a.rule_start.push(nx()? as usize);
        if a.lexer {
            let t = nx()?;
            a.rule_tok.push(if t == 0xFFFF { -1 } else { t as i32 });
        }
    }
    for _ in 0..nx()? {
        a.modes.push(nx()? as usize);
    }
    let mut sets: Vec<atnc::Ranges> = vec![];
    for k in 0..2 {
        for _ in 0..nx()? {
            let n = nx()?;
            let mut r = vec![];
            if nx()? != 0 {
                r.push((-1, -1));
            }
            for _ in 0..n {
                let mut rd = || -> Result<i32, String> {
                    let lo = nx()?;
                    Ok(if k == 0 { lo as i32 } else { (lo | nx()? << 16) as i32 })
                };
                let x = rd()?;
                r.push((x, rd()?));
            }
            sets.push(norm(r));
        }
    }
    for _ in 0..nx()? {
        let (src, to, ty, x, y, z) = (nx()? as usize, nx()? as usize, nx()?, nx()?, nx()?, nx()?);
        let t = match ty {
            1 => Tr::Eps(to),
            2 => Tr::Range(to, if z != 0 { -1 } else { x as i32 }, y as i32),
            3 => Tr::Rule { start: x as usize, rule: y as usize, prec: z, follow: to },
            4 => Tr::Pred { to, rule: x as usize, idx: y, ctx: z != 0 },
            5 => Tr::Atom(to, if z != 0 { -1 } else { x as i32 }),
            6 => Tr::Action { to, rule: x as usize, idx: y, ctx: z != 0 },
            7 => Tr::Set(to, sets[x as usize].clone()),
            8 => Tr::NotSet(to, sets[x as usize].clone()),
            9 => Tr::Wild(to),
            10 => Tr::Prec(to, x),
            _ => return Err(format!("edge type {}", ty)),
        };
        a.states[src].tr.push(t);
    }
    for _ in 0..nx()? {
        a.decisions.push(nx()? as usize);
    }
    if a.lexer {
        for _ in 0..nx()? {
            let (t, x, y) = (nx()?, nx()?, nx()?);
            let sx = if x == 0xFFFF { -1 } else { x as i32 };
            a.lex_actions.push(match t {
                0 => LAct::Channel(sx),
                1 => LAct::Custom(x as usize, y),
                2 => LAct::Mode(x),
                3 => LAct::More,
                4 => LAct::PopMode,
                5 => LAct::PushMode(x),
                6 => LAct::Skip,
                7 => LAct::Type(sx),
                _ => return Err(format!("action type {}", t)),
            });
        }
    }
    if p != w.len() {
        return Err(format!("{} words left over", w.len() - p));
    }
    Ok(a)
}

fn word(s: &mut Src) -> u32 {
    *s.pick(&[1u32, 0, 2, 97, 0x7FFD, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xD7FD, 0xD7FE, 0xD800, 0xDFFD, 0xDFFF, 0xFFFD, 0xFFFE])
}

fn random_atn(s: &mut Src) -> Atn {
    let lexer = s.chance(1, 2);
    let mut a = Atn { lexer, max_tok: if s.chance(1, 3) { word(s).max(1) } else { s.range(1, 9) as u32 }, ..Default::default() };
    let nr = s.range(1, 4);
    let nm = if lexer { s.range(1, 3) } else { 0 };
    let mut plan: Vec<(u32, usize)> = vec![];
    for r in 0..nr {
        plan.push((atnc::RULE_START, r));
        plan.push((atnc::RULE_STOP, r));
    }
    for _ in 0..nm {
        plan.push((atnc::TOKEN_START, usize::MAX));
    }
    for _ in 0..s.len(0, 12) {
        let t = *s.pick(&[1u32, 3, 4, 5, 8, 9, 10, 10, 11, 12, 12]);
        plan.push((t, s.draw(nr)));
    }
    let mut order = vec![];
    while !plan.is_empty() {
        let i = s.draw(plan.len());
        order.push(plan.remove(i));
    }
    let n = order.len();
    a.rule_start = vec![0; nr];
    for (i, (ty, r)) in order.iter().enumerate() {
        let id = a.state(*ty, *r);
        a.states[id].extra = s.draw(n);
        match *ty {
            atnc::RULE_START => {
                a.rule_start[*r] = i;
                a.states[id].prec_rule = s.chance(1, 2);
            }
            atnc::TOKEN_START => a.modes.push(i),
            _ => {}
        }
        let dec = matches!(*ty, 3 | 4 | 5 | 6 | 10 | 11);
        if dec {
            a.states[id].nongreedy = s.chance(1, 3);
            if s.chance(3, 4) {
                a.decisions.push(i);
            }
        }
    }
    if a.modes.len() > 1 && s.chance(1, 2) {
        a.modes.reverse();
    }
    if s.chance(1, 2) {
        a.decisions.reverse();
    }
    if lexer {
        a.rule_tok = (0..nr).map(|_| match s.draw(4) {
            0 => -1,
            1 => word(s) as i32,
            _ => s.range(1, 9) as i32,
        }).collect();
        for _ in 0..s.draw(4) {
            let x = s.draw(5) as i32;
            let act = match s.draw(8) {
                0 => LAct::Channel(if s.chance(1, 3) { -1 } else { x }),
                1 => LAct::Custom(x as usize, word(s)),
                2 => LAct::Mode(x as u32),
                3 => LAct::More,
                4 => LAct::PopMode,
                5 => LAct::PushMode(x as u32),
                6 => LAct::Skip,
                _ => LAct::Type(if s.chance(1, 3) { -1 } else { x }),
            };
            a.act(act);
        }
    }
    let set = |s: &mut Src| -> atnc::Ranges {
        let mut r = vec![];
        let big = s.chance(1, 3);
        for _ in 0..s.range(1, 3) {
            let x = if big { *s.pick(&[0i32, 97, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]) } else { word(s) as i32 };
            let y = if s.chance(1, 2) { x } else { (x + s.draw(40) as i32).min(if big { 0x10FFFF } else { 0xFFFF }) };
            r.push((x, y));
        }
        if s.chance(1, 4) {
            r.push((-1, -1));
        }
        norm(r)
    };
    let mut rule_follow: HashSet<(usize, usize)> = HashSet::new();
    for i in 0..n {
        let ty = order[i].0;
        if ty == atnc::RULE_STOP {
            continue;
        }
        let k = s.draw(4).max(if ty == atnc::STAR_LOOP_ENTRY || ty == atnc::LOOP_END { 1 } else { 0 });
        for _ in 0..k {
            let to = if s.chance(1, 4) {
                // make the pattern of a left-recursive loop likely
                let c: Vec<usize> = (0..n).filter(|j| order[*j].0 == if ty == atnc::LOOP_END { atnc::RULE_STOP } else { atnc::LOOP_END }).collect();
                if c.is_empty() { s.draw(n) } else { *s.pick(&c) }
            } else {
                s.draw(n)
            };
            let r = s.draw(nr);
            let t = match s.draw(11) {
                0 | 1 => Tr::Eps(to),
                2 => {
                    let x = word(s) as i32;
                    if s.chance(1, 5) { Tr::Range(to, -1, x) } else { Tr::Range(to, x, (x + s.draw(20) as i32).min(0xFFFF)) }
                }
                3 => {
                    if !rule_follow.insert((r, to)) {
                        continue;
                    }
                    Tr::Rule { start: a.rule_start[r], rule: r, prec: if s.chance(1, 2) { 0 } else { s.draw(5) as u32 }, follow: to }
                }
                4 => Tr::Pred { to, rule: r, idx: word(s), ctx: s.chance(1, 2) },
                5 => Tr::Atom(to, if s.chance(1, 5) { -1 } else { word(s) as i32 }),
                6 => Tr::Action { to, rule: r, idx: word(s), ctx: s.chance(1, 2) },
                7 => Tr::Set(to, set(s)),
                8 => Tr::NotSet(to, set(s)),
                9 => Tr::Wild(to),
                _ => Tr::Prec(to, s.draw(20) as u32),
            };
            // edges that differ only in kind from an existing one may be merged: not part of the claim
            let clash = a.states[i].tr.iter().any(|x| {
                target(x) == target(&t) && (x == &t || (is_eps(x) && is_eps(&t)) || (label(x).is_some() && label(x) == label(&t)))
            });
            if clash {
                continue;
            }
            a.states[i].tr.push(t);
        }
        if (ty == atnc::STAR_LOOP_ENTRY || ty == atnc::LOOP_END) && a.states[i].tr.is_empty() {
            a.eps(i, s.draw(n));
        }
    }
    a
}
fn label(t: &Tr) -> Option<atnc::Ranges> {
    match t {
        Tr::Range(_, a, b) => Some(vec![(*a, *b)]),
        Tr::Atom(_, a) => Some(vec![(*a, *a)]),
        Tr::Set(_, r) | Tr::NotSet(_, r) => Some(norm(r.clone())),
        _ => None,
    }
}

fn refused(s: &str) -> bool {
    guarded("x", || ATNDeserializer::new(None).deserialize(s.chars())).is_err()
}

/// The operands of lexer commands and actions survive: observed by running them
fn c20_commands(s: &mut Src, st: &mut Stats) -> Check {
    use crate::lexdrv::{self, LexRun};
    use lexg::{Cmd, LGram, LRule, L};
    let nmodes = s.range(1, 4);
    let big = |s: &mut Src| -> i32 {
        match s.draw(6) {
            0 => -1,
            1 => *s.pick(&[1i32, 0x7FFD, 0x7FFE, 0x7FFF, 0x8000, 0xFFFC, 0xFFFD, 0xFFFE]),
            2 => word(s) as i32,
            _ => s.range(1, 9) as i32,
        }
    };
    let mut g = LGram { nmodes, max_tok: 40, ..Default::default() };
    for m in 0..nmodes {
        for i in 0..s.range(2, 5) {
            let c = 'a' as i32 + i as i32;
            let mut v = vec![L::Set(vec![(c, c)])];
            if s.chance(1, 3) {
                v.push(L::Act((big(s) & 0xFFFF).min(0xFFFE) as u32));
            }
            let mut cmds = vec![];
            for _ in 0..s.draw(3) {
                let m = s.draw(nmodes) as u32;
                cmds.push(match s.draw(10) {
                    0 => Cmd::Skip,
                    1 => Cmd::More,
                    2 => Cmd::Mode(m),
                    3 => Cmd::Push(m),
                    4 => Cmd::Pop,
                    5 | 6 => Cmd::Channel(big(s)),
                    _ => Cmd::Type(big(s)),
                });
            }
            // the rule's own token type is an operand too
            let tok = if s.chance(1, 4) { big(s) } else { 1 + g.rules.len() as i32 };
            g.rules.push(LRule { fragment: false, mode: m, tok: if tok == 0 { 1 } else { tok }, alts: vec![(L::Seq(v), cmds)] });
        }
    }
    let g = std::rc::Rc::new(g);
    let n = s.range(1, 14);
    let input: Vec<i32> = (0..n).map(|_| 'a' as i32 + s.draw(5) as i32).collect();
    let out = match lexg::ref_lex(&g, &input, 100_000) {
        Some(o) => o,
        None => {
            st.skipped += 1;
            return Ok(());
        }
    };
    let want = lexdrv::expect(&out, &input, &|k| k as isize);
    let text = lexdrv::to_string(&input);
    let atn = lexg::compile(&g);
    let sh = crate::engine::guarded("deserialize", || lexdrv::Shared::new(&atn))?;
    let d = format!("{}\ninput {:?}", g.show(), text);
    let got = crate::engine::guarded(&d, || {
        let errs = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let acts = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let mut r = LexRun::default();
        {
            let map = std::rc::Rc::new((0..=input.len()).collect::<Vec<_>>());
            let mut lx = lexdrv::new_lexer(&sh, &g, map, antlr_rust::InputStream::new(&text[..]), super::lex::tf(), errs.clone(), acts.clone());
            for _ in 0..want.toks.len() {
                let t = antlr_rust::TokenSource::next_token(&mut lx);
                r.toks.push(lexdrv::otok(&*t));
            }
            r.emits = want.emits;
        }
        r.errs = errs.take();
        r.acts = acts.take();
        r
    })?;
    if let Some(x) = lexdrv::diff(&got, &want) {
        return fail(format!("{}\n{}", d, x));
    }
    st.class("lexer commands run");
    st.class_if(g.rules.iter().any(|r| r.alts[0].1.iter().any(|c| matches!(c, Cmd::Type(-1) | Cmd::Channel(-1)))), "operand -1");
    if want.toks.len() >= 3 {
        st.nontrivial(&d);
    }
    Ok(())
}

fn c20(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(1, 12) {
        return c20_commands(s, st);
    }
    let (a, name) = match s.weighted(&[5, 1, 1]) {
        0 => (random_atn(s), "random ATN"),
        1 => {
            let o = lexg::LOpts { nongreedy: true, unicode: s.chance(1, 2), cmds: true, acts: true, modes: true, preds: s.chance(1, 2), ..Default::default() };
            (lexg::compile(&lexg::gen_lgram(s, o)), "lexer grammar")
        }
        _ => {
            let o = parg::GOpt { lr: true, ..Default::default() };
            (parg::compile(&parg::gen_gram(s, &o)).atn, "parser grammar")
        }
    };
    let text = a.serialize();
    if let Err(e) = read(&text).map_err(|e| e.to_string()).and_then(|b| {
        let norm_all = |x: &Atn| x.states.iter().map(|s| s.tr.iter().map(want_tr).collect::<Vec<_>>()).collect::<Vec<_>>();
        let strip = |x: &Atn| { let mut v = norm_all(x); for (i, s) in x.states.iter().enumerate() { if s.ty == atnc::RULE_STOP { v[i].clear() } } v };
        if strip(&b) == strip(&a) && b.lex_actions.len() == a.lex_actions.len() { Ok(()) } else { Err("differs".into()) }
    }) {
        panic!("harness: own reader disagrees with own writer: {}", e);
    }
    let r = load(&text)?;
    if let Err(e) = compare(&a, &r) {
        return fail(format!("{} {:?}\n{}", name, a, e.msg));
    }
    st.class(name);
    // refusals
    if s.chance(1, 8) {
        let chars: Vec<char> = text.chars().collect();
        let mut c = chars.clone();
        let what;
        match s.draw(4) {
            0 => {
                c[0] = *s.pick(&['\u{2}', '\u{4}', '\u{5}', '\u{0}', '\u{1}']);
                what = "another version";
            }
            1 => {
                let i = 1 + s.draw(8);
                let old = c[i];
                while c[i] == old {
                    c[i] = *s.pick(&['a', '\u{5964}', '\u{ffff}', '\u{0}']);
                    if c[i] == old { c[i] = 'b' }
                }
                what = "another UUID";
            }
            2 => {
                let k = s.draw(c.len());
                c.truncate(k);
                what = "truncated data";
            }
            _ => {
                c[9] = crate::atnc::enc(2 + s.draw(3) as u32);
                what = "an unknown grammar type";
            }
        }
        let t: String = c.iter().collect();
        ensure!(refused(&t), "{} is accepted", what);
        st.class(what);
    }
    st.class_if(a.states.iter().any(|s| s.prec_rule), "left-recursive rule");
    let sets = a.states.iter().flat_map(|s| &s.tr).filter(|t| matches!(t, Tr::Set(..) | Tr::NotSet(..))).count();
    st.class_if(sets > 0, "has sets");
    st.class_if(a.states.iter().flat_map(|s| &s.tr).any(|t| matches!(t, Tr::Set(_, r) | Tr::NotSet(_, r) if r.iter().any(|x| x.1 > 0xFFFF))), "has 32-bit sets");
    if a.states.len() >= 6 && a.states.iter().map(|s| s.tr.len()).sum::<usize>() >= 5 {
        let d = format!("{} with {} states: {}", name, a.states.len(), text.escape_default());
        st.nontrivial(&d);
        st.sample(|| d.chars().take(300).collect());
    }
    Ok(())
}

fn unescape(src: &str) -> Option<String> {
    let i = src.find("const _serializedATN")?;
    let rest = &src[i..];
    let q = rest.find('"')? + 1;
    let mut o = String::new();
    let mut it = rest[q..].chars().peekable();
    loop {
        match it.next()? {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'x' => {
                    let h: String = [it.next()?, it.next()?].iter().collect();
                    o.push(u8::from_str_radix(&h, 16).ok()? as char);
                }
                'u' => {
                    it.next()?;
                    let mut h = String::new();
                    loop {
                        let c = it.next()?;
                        if c == '}' {
                            break;
                        }
                        h.push(c);
                    }
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                '0' => o.push('\0'),
                '\n' => {
                    while it.peek().map_or(false, |c| c.is_whitespace()) {
                        it.next();
                    }
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
}

fn c20_directed(st: &mut Stats) -> Check {
    // the ATNs shipped with the repository
    if let Ok(d) = std::fs::read_dir("/repo/tests/gen") {
        let mut names: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        names.sort();
        for p in names {
            let src = match std::fs::read_to_string(&p) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let t = match unescape(&src) {
                Some(t) => t,
                None => continue,
            };
            let a = match read(&t) {
                Ok(a) => a,
                Err(_) => continue,
            };
            let r = load(&t)?;
            if let Err(e) = compare(&a, &r) {
                return fail(format!("{}: {}", p.display(), e.msg));
            }
            st.class("shipped ATN");
            st.nontrivial(&p.display().to_string());
        }
    }
    // more states than fit a signed 16-bit number
    let mut a = Atn { lexer: false, max_tok: 40_000, ..Default::default() };
    let first = a.state(atnc::RULE_START, 0);
    a.rule_start.push(first);
    let stop = a.state(atnc::RULE_STOP, 0);
    let mut prev = first;
    for i in 0..60_000 {
        let q = match i % 50 {
            0 => {
                let b = a.state(atnc::BLOCK_START, 0);
                a.states[b].extra = b;
                a.decision(b);
                b
            }
            _ => a.state(atnc::BASIC, 0),
        };
        if i % 2 == 0 {
            a.eps(prev, q)
        } else {
            a.states[prev].tr.push(Tr::Atom(q, i % 40_000))
        }
        prev = q;
    }
    a.eps(prev, stop);
    let r = load(&a.serialize())?;
    compare(&a, &r)?;
    st.class("60000 states");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "a case is a random ATN (1-4 rules, all state and transition kinds, values over the whole 16-bit range, 16- and 32-bit sets, EOF flags, precedence rules) or the ATN of a random lexer or parser grammar, serialized by the harness and deserialized by the library; every state, edge, table and derived return edge compared; damaged serializations must be refused; plus all ATNs shipped under tests/gen and one with 60000 states; one case in twelve runs a lexer whose commands carry extreme operands and compares tokens and actions with the reference lexer; non-trivial: at least six states and five edges (or three tokens); distinct by serialized text",
        f: c20,
        directed: Some(c20_directed),
        quick: 2_000_000,
        thorough: 50_000_000,
        assumptions: &["serialized form of ANTLR 4.8 (version 3, UUID 59627784)", "edges of one state that collide in target and label or epsilon-ness are not generated"],
    }]
}
