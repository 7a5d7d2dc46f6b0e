//! C30: every random value is used once, over histories of operations.
use crate::engine::{Env, Plan, Rec};
use crate::keys::Key;
use crate::ops::*;
use crate::refjose::*;
use crate::world::*;
use askar_crypto::random::standin;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::future::Future;
use std::sync::Arc;
use std::task::Context;

/// One step of a history.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    Whole,
    /// dropped after so many polls
    Dropped(usize),
    /// the call of this number to a resolver fails
    Failing(usize),
}

/// What an operation made itself: without what was inside the envelope it was given to wrap.
fn made(op: &Op, text: &str, world: &[Party]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let (mut v, mut given) = (vec![], vec![]);
    values(text, world, &mut v)?;
    if let Op::Wrap { text, .. } = op {
        values(text, world, &mut given)?;
    }
    if v.len() < given.len() || v[v.len() - given.len()..] != given[..] {
        return Err("the wrapped envelope is not inside".into());
    }
    v.truncate(v.len() - given.len());
    Ok(v)
}
/// What must be new: role and bytes.
fn values(text: &str, world: &[Party], out: &mut Vec<(String, Vec<u8>)>) -> Result<(), String> {
    let look = lookup(world);
    let Ok(v) = serde_json::from_str::<Value>(text) else { return Ok(()) };
    if v.get("ciphertext").is_some() {
        let kid = v["recipients"][0]["header"]["kid"].as_str().ok_or("no recipient")?.to_string();
        let key: Key = look(&kid).ok_or_else(|| format!("unknown recipient {kid}"))?;
        let o = open_jwe(text, &kid, &key, &|k| look(k))?;
        out.push(("content key".into(), o.cek.clone()));
        out.push(("iv".into(), o.iv.clone()));
        out.push(("ephemeral key".into(), b64u_dec(o.epk["x"].as_str().unwrap_or("")).ok_or("epk.x")?));
        for r in v["recipients"].as_array().into_iter().flatten() {
            out.push(("wrapped key".into(), b64u_dec(r["encrypted_key"].as_str().unwrap_or("")).ok_or("encrypted_key")?));
        }
        values(std::str::from_utf8(&o.pt).map_err(|e| e.to_string())?, world, out)
    } else if v.get("signatures").is_some() {
        let (_, _, p) = open_jws(text, &|k| look(k))?;
        values(std::str::from_utf8(&p).map_err(|e| e.to_string())?, world, out)
    } else if v["type"] == "https://didcomm.org/routing/2.0/forward" {
        out.push(("forward id".into(), v["id"].as_str().unwrap_or("").as_bytes().to_vec()));
        values(&v["attachments"][0]["data"]["json"].to_string(), world, out)
    } else {
        Ok(())
    }
}

#[derive(Default)]
struct Seen {
    whole: HashMap<Vec<u8>, String>,
    windows: HashMap<[u8; 12], String>,
}
impl Seen {
    /// Records the values of one produced text; the first that is not new is reported.
    fn add(&mut self, what: &str, vals: Vec<(String, Vec<u8>)>) -> Option<String> {
        for (i, (role, v)) in vals.iter().enumerate() {
            let here = format!("{role} {i} of {what}");
            if v.len() < 12 {
                return Some(format!("{here} has {} bytes only", v.len()));
            }
            if let Some(o) = self.whole.insert(v.clone(), here.clone()) {
                return Some(format!("{here} is the {o}"));
            }
            if role == "forward id" {
                continue; // text with a fixed form
            }
            let mut mine = vec![];
            for w in v.windows(12) {
                let w: [u8; 12] = w.try_into().unwrap();
                if let Some(o) = self.windows.get(&w) {
                    return Some(format!("{here} has bytes of the {o}"));
                }
                if mine.contains(&w) {
                    return Some(format!("{here} repeats itself"));
                }
                mine.push(w);
            }
            for w in mine {
                self.windows.insert(w, here.clone());
            }
        }
        None
    }
}

struct Ctx {
    world: Vec<Party>,
    scen: Vec<Scenario>,
    calls: Vec<usize>,
    polls: Vec<usize>,
    packs: Vec<bool>,
}

fn start<'a>(c: &'a Ctx, net: &'a Net, i: usize) -> std::pin::Pin<Box<dyn Future<Output = Out> + 'a>> {
    let _ = c;
    Box::pin(c.scen[i].op.run(net))
}
fn net(c: &Ctx, i: usize, how: How) -> Net {
    let mut n = net_of(&c.world, c.scen[i].who);
    n.pend.set(1);
    if let How::Failing(k) = how {
        n.faults.insert(k, Fault::Err(ErrorKind2(0)));
    }
    n
}

/// Executes one step; the values of what it produced, and the random bytes it drew.
fn perform(c: &Ctx, i: usize, how: How) -> Result<Option<Vec<(String, Vec<u8>)>>, String> {
    let n = net(c, i, how);
    standin::record();
    let out = match how {
        How::Dropped(k) => {
            let w = noop_waker();
            let mut cx = Context::from_waker(&w);
            let mut f = start(c, &n, i);
            for _ in 0..k {
                if f.as_mut().poll(&mut cx).is_ready() {
                    break;
                }
            }
            None
        }
        _ => Some(block_on(c.scen[i].op.run(&n))),
    };
    let drawn = standin::take();
    match out {
        Some(Out::Packed(t, _)) => {
            let v = made(&c.scen[i].op, &t, &c.world)?;
            for (role, x) in v.iter().filter(|(r, _)| r == "content key" || r == "iv") {
                if !drawn.iter().any(|d| d.windows(x.len()).any(|w| w == &x[..])) {
                    return Err(format!("the {role} was not drawn from the random source during the operation"));
                }
            }
            Ok(Some(v))
        }
        _ => Ok(None),
    }
}

fn step(c: &Ctx, rec: &mut Rec, seen: &mut Seen, what: &str, i: usize, how: How) {
    rec.begin(what);
    rec.transitions += 1;
    match rec.guarded(|| perform(c, i, how)) {
        Err(p) => rec.fail(what, format!("panic: {p}")),
        Ok(Err(e)) => rec.fail(what, e),
        Ok(Ok(v)) => {
            rec.outcome(match &v {
                None => "nothing produced".to_string(),
                Some(v) => format!("{} values", v.len()),
            });
            if how == How::Whole {
                rec.check(v.is_some() == c.packs[i], what, || "succeeds here and not there".into());
            }
            if let Some(e) = v.and_then(|v| seen.add(what, v)) {
                rec.fail(what, e);
            }
        }
    }
}

fn interleaved(c: &Ctx, rec: &mut Rec, seen: &mut Seen, a: usize, b: usize, at: usize, back: usize) {
    let what = format!("{}[{at}]{}[{back}]", c.scen[a].name, c.scen[b].name);
    rec.begin(&what);
    let (na, nb) = (net(c, a, How::Whole), net(c, b, How::Whole));
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let (mut fa, mut fb) = (Some(start(c, &na, a)), Some(start(c, &nb, b)));
    let mut outs = vec![];
    let mut go = |f: &mut Option<std::pin::Pin<Box<dyn Future<Output = Out> + '_>>>, k: usize, x_is_a: bool, rec: &mut Rec| {
        for _ in 0..k {
            let Some(x) = f.as_mut() else { return };
            rec.transitions += 1;
            if let std::task::Poll::Ready(o) = x.as_mut().poll(&mut cx) {
                outs.push((x_is_a, o));
                *f = None;
            }
        }
    };
    go(&mut fa, at, true, rec);
    go(&mut fb, back, false, rec);
    go(&mut fa, 1000, true, rec);
    go(&mut fb, 1000, false, rec);
    rec.eval(&what, true);
    rec.traces += 1;
    rec.state(&(a, b, at, back));
    for (is_a, o) in outs {
        if let Out::Packed(t, _) = o {
            let r = made(&c.scen[if is_a { a } else { b }].op, &t, &c.world);
            let r = r.and_then(|v| seen.add(&format!("{what}/{}", if is_a { 1 } else { 2 }), v).map_or(Ok(()), Err));
            if let Err(e) = r {
                rec.fail(&what, e);
            }
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C30",
        "model_checking",
        "histories: every sequence of two (thorough: three, the last whole) operations, each run whole, dropped after every number of \
         polls or with every one of its resolver calls failing, and every schedule of two operations with up to two (thorough three) \
         switches; every layer of every produced text is opened and its content key, iv, ephemeral key, wrapped keys and forward \
         ids must be new in all of the history, share no 12 bytes with one another, and keys and ivs be drawn during the operation. \
         State: the history",
    );
    let world = stage();
    let scen = scenarios(&world);
    let mut c = Ctx { world, scen, calls: vec![], polls: vec![], packs: vec![] };
    for i in 0..c.scen.len() {
        let n = net(&c, i, How::Whole);
        let w = noop_waker();
        let mut cx = Context::from_waker(&w);
        let (polls, packs) = {
            let mut f = start(&c, &n, i);
            let mut k = 0;
            loop {
                k += 1;
                if let std::task::Poll::Ready(o) = f.as_mut().poll(&mut cx) {
                    break (k, matches!(o, Out::Packed(..)));
                }
            }
        };
        let calls = n.calls().len();
        drop(n);
        c.polls.push(polls);
        c.calls.push(calls);
        c.packs.push(packs);
    }
    let c = Arc::new(c);
    let n = c.scen.len();
    p.bounds = json!({"operations": n, "length": if full { 3 } else { 2 }});
    let hows = |c: &Ctx, i: usize| -> Vec<How> {
        [How::Whole].into_iter().chain((1..c.polls[i]).map(How::Dropped)).chain((0..c.calls[i]).map(How::Failing)).collect()
    };
    for i in 0..n {
        for h in hows(&c, i) {
            let c = c.clone();
            p.case(format!("{}-{h:?}", c.scen[i].name), move |rec| {
                let mut seen = Seen::default();
                for j in (0..n).filter(|j| c.packs[*j]) {
                    for g in hows(&c, j) {
                        let what = format!("{}-{h:?}>{}-{g:?}", c.scen[i].name, c.scen[j].name);
                        rec.eval(&(i, h, j, g), true);
                        rec.state(&(i, h, j, g));
                        rec.traces += 1;
                        step(&c, rec, &mut seen, &format!("{what}/1"), i, h);
                        step(&c, rec, &mut seen, &format!("{what}/2"), j, g);
                        if g != How::Whole || full {
                            for l in (0..n).filter(|l| c.packs[*l] && (full || *l == j || *l == i)) {
                                step(&c, rec, &mut seen, &format!("{what}>{}/3", c.scen[l].name), l, How::Whole);
                            }
                        }
                    }
                }
                rec.sample(|| json!({"first": format!("{}-{h:?}", c.scen[i].name), "distinct values": seen.whole.len()}));
            });
        }
    }
    for a in (0..n).filter(|a| c.packs[*a]) {
        let c = c.clone();
        p.case(format!("with/{}", c.scen[a].name), move |rec| {
            let mut seen = Seen::default();
            for b in (0..n).filter(|b| c.packs[*b]) {
                for at in 1..=c.polls[a] {
                    for back in (1..=c.polls[b]).filter(|k| full || *k == 1 || *k == c.polls[b] || c.polls[b] < 6) {
                        interleaved(&c, rec, &mut seen, a, b, at, back);
                    }
                }
            }
        });
    }
    // one operation many times over
    for a in (0..n).filter(|a| c.packs[*a]) {
        let c = c.clone();
        p.case(format!("long/{}", c.scen[a].name), move |rec| {
            let mut seen = Seen::default();
            for k in 0..if full { 3000 } else { 300 } {
                rec.eval(&(a, k), true);
                rec.state(&("long", a, k));
                step(&c, rec, &mut seen, &format!("{}-{k}", c.scen[a].name), a, How::Whole);
            }
        });
    }
    crate::many::c30(&mut p, env.thorough());
    p
}
