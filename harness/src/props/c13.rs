//! C13: all interleavings and cancellation points of concurrent operations, on the real code.
use crate::engine::{hash64, Env, Plan, Rec};
use crate::ops::*;
use crate::world::*;
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

struct Task {
    who: usize,
    op: Op,
    name: &'static str,
    /// canonical result and number of polls when run alone
    alone: String,
    polls: usize,
    inputs: String,
}

fn alone(world: &[Party], s: &Scenario, pend: u32) -> Result<Task, String> {
    let net = net_of(world, s.who);
    net.pend.set(pend);
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(s.op.run(&net));
    let mut polls = 0;
    let out = loop {
        polls += 1;
        if polls > 1000 {
            return Err("stays pending".into());
        }
        if let Poll::Ready(o) = f.as_mut().poll(&mut cx) {
            break o;
        }
    };
    Ok(Task { who: s.who, op: s.op.clone(), name: s.name, alone: canon_out(&out, world)?, polls, inputs: s.op.inputs() })
}

/// One step of a schedule: poll an operation or drop it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Poll(usize),
    Drop(usize),
}
fn word_name(w: &[Step]) -> String {
    w.iter()
        .map(|s| match s {
            Step::Poll(i) => char::from(b'a' + *i as u8),
            Step::Drop(i) => char::from(b'A' + *i as u8),
        })
        .collect()
}

/// All interleavings of the given step sequences.
fn interleavings(seqs: &[Vec<Step>], f: &mut dyn FnMut(&[Step])) {
    fn go(seqs: &[Vec<Step>], pos: &mut Vec<usize>, acc: &mut Vec<Step>, f: &mut dyn FnMut(&[Step])) {
        let mut any = false;
        for i in 0..seqs.len() {
            if pos[i] < seqs[i].len() {
                any = true;
                acc.push(seqs[i][pos[i]]);
                pos[i] += 1;
                go(seqs, pos, acc, f);
                pos[i] -= 1;
                acc.pop();
            }
        }
        if !any {
            f(acc);
        }
    }
    go(seqs, &mut vec![0; seqs.len()], &mut vec![], f);
}

fn fresh_values(text: &str, out: &mut Vec<String>) {
    if let Ok(v) = serde_json::from_str::<Value>(text) {
        for k in ["iv", "tag", "ciphertext"] {
            if let Some(s) = v[k].as_str() {
                out.push(format!("{k} {s}"));
            }
        }
    }
}

/// Executes one schedule; every operation's result is compared with its result when run alone.
fn execute(rec: &mut Rec, world: &[Party], tasks: &[Task], word: &[Step], pend: u32, later: bool) {
    let name = word_name(word);
    rec.begin(&name);
    // operations of the same caller share that caller's resolvers
    let nets: Vec<Arc<Net>> = {
        let mut by: Vec<(usize, Arc<Net>)> = vec![];
        tasks
            .iter()
            .map(|t| {
                if let Some((_, n)) = by.iter().find(|(w, _)| *w == t.who) {
                    return n.clone();
                }
                let n = net_of(world, t.who);
                n.pend.set(pend);
                let n = Arc::new(n);
                by.push((t.who, n.clone()));
                n
            })
            .collect()
    };
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = Out> + '_>>>> =
        tasks.iter().zip(&nets).map(|(t, n)| Some(Box::pin(t.op.run(n)) as Pin<Box<dyn Future<Output = Out>>>)).collect();
    let mut done: Vec<Option<Out>> = tasks.iter().map(|_| None).collect();
    let mut dropped = vec![false; tasks.len()];
    let mut pos = vec![0usize; tasks.len()];
    for s in word {
        match *s {
            Step::Poll(i) => {
                let Some(f) = futs[i].as_mut() else {
                    return rec.fail(&name, format!("{} finished earlier than when run alone", tasks[i].name));
                };
                pos[i] += 1;
                if let Poll::Ready(o) = f.as_mut().poll(&mut cx) {
                    done[i] = Some(o);
                    futs[i] = None;
                }
            }
            Step::Drop(i) => {
                futs[i] = None;
                dropped[i] = true;
            }
        }
        rec.transitions += 1;
        let done_mask: Vec<bool> = done.iter().map(|d| d.is_some()).collect();
        rec.states.insert(hash64(&(rec.case.as_str(), &pos, &dropped, &done_mask)));
    }
    rec.traces += 1;
    rec.eval(&name, true);
    let mut fresh = vec![];
    for (i, t) in tasks.iter().enumerate() {
        if dropped[i] {
            continue;
        }
        match &done[i] {
            None => rec.fail(&name, format!("{} needs more polls than when run alone", t.name)),
            Some(o) => {
                let c = canon_out(o, world).unwrap_or_else(|e| format!("unreadable: {e}"));
                rec.check(c == t.alone, &name, || format!("{} gave {c}\n alone it gives {}", t.name, t.alone));
                if let Out::Packed(text, _) = o {
                    fresh_values(text, &mut fresh);
                }
            }
        }
        rec.check(t.op.inputs() == t.inputs, &name, || format!("{} changed its inputs", t.name));
    }
    let n = fresh.len();
    fresh.sort();
    fresh.dedup();
    rec.check(fresh.len() == n, &name, || "two operations produced the same iv, tag or ciphertext".into());
    if later {
        // later operations are unaffected by what happened (and by what was dropped)
        for (t, net) in tasks.iter().zip(&nets) {
            let o = run(&t.op, net);
            let c = canon_out(&o, world).unwrap_or_else(|e| format!("unreadable: {e}"));
            rec.check(c == t.alone, &name, || format!("afterwards {} gave {c}\n alone it gives {}", t.name, t.alone));
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C13",
        "model_checking",
        "stateless exploration on the real futures: every interleaving of the lookups of 2 (and 3) concurrent operations, \
         and every interleaving in which one of them is dropped after each number of polls; after every schedule each \
         result is compared with the result of the operation alone, inputs are compared, and the operations are run again",
    );
    p.assumptions = vec![
        "one lookup answer per poll; the futures are not Send in this configuration, so schedules are interleavings of polls \
         on one thread (the multi-threaded configuration is explored by C19)"
            .into(),
    ];
    let world = stage();
    let scen = scenarios(&world);
    let max_words: u64 = if full { 12_000 } else { 500 };
    p.bounds = json!({"operations at once": 3, "drops per schedule": 1, "schedules per combination at most": max_words,
        "schedules are": "all interleavings; combinations above the limit are left out, not truncated"});
    let n = scen.len();
    let mut combos: Vec<(Vec<usize>, u32)> = vec![];
    for i in 0..n {
        for j in i..n {
            combos.push((vec![i, j], 1));
        }
    }
    let pick = |names: &[&str]| -> Vec<usize> {
        names.iter().map(|x| scen.iter().position(|s| s.name == *x).unwrap_or_else(|| panic!("{x}"))).collect()
    };
    for t in [
        ["pack-anon", "pack-anon-signed", "unpack-anon"],
        ["unpack-signed", "unpack-anon", "unpack-auth"],
        ["token-pack", "token-unpack", "pack-plain-rotated"],
        ["pack-anon-kid", "pack-anon", "pack-anon"],
        ["unpack-auth", "unpack-anon", "unpack-plain-rotated"],
        ["pack-signed-did", "pack-signed-did", "pack-signed-kid-rotated"],
        ["unpack-anon", "unpack-anon", "unpack-anon"],
    ] {
        combos.push((pick(&t), 1));
    }
    if full {
        for t in [
            ["pack-auth-kid", "unpack-auth", "unpack-anon-signed"],
            ["unpack-auth", "unpack-auth", "unpack-auth"],
            ["token-pack-kid", "pack-signed-did", "unpack-signed-rotated"],
            ["wrap", "unpack-anon", "pack-anon"],
            ["unpack-anon-signed", "unpack-auth", "unpack-signed"],
        ] {
            combos.push((pick(&t), 1));
        }
    }
    // spurious polls: every lookup needs two polls
    for t in [["unpack-anon", "unpack-signed"], ["pack-anon", "token-unpack"], ["unpack-anon", "unpack-anon"]] {
        combos.push((pick(&t), 2));
    }
    for (c, pend) in combos {
        let tasks: Result<Vec<Task>, String> = c.iter().map(|i| alone(&world, &scen[*i], pend)).collect();
        let name = format!("{}{}", c.iter().map(|i| scen[*i].name).collect::<Vec<_>>().join("+"), if pend > 1 { "+spurious" } else { "" });
        let tasks = match tasks {
            Ok(t) => t,
            Err(e) => {
                p.case(name, move |rec| rec.fail("alone", e.clone()));
                continue;
            }
        };
        // number of interleavings with and without a drop
        let len: Vec<usize> = tasks.iter().map(|t| t.polls).collect();
        let multi = |l: &[usize]| -> u64 {
            let mut r: u64 = 1;
            let mut s = 0u64;
            for &x in l {
                for k in 1..=x as u64 {
                    s += 1;
                    r = r.saturating_mul(s) / k;
                }
            }
            r
        };
        if multi(&len) > max_words {
            continue;
        }
        let mut seqs: Vec<Vec<Vec<Step>>> = vec![len.iter().enumerate().map(|(i, n)| vec![Step::Poll(i); *n]).collect()];
        let mut words = multi(&len);
        for d in 0..tasks.len() {
            for k in 0..len[d] {
                let mut l = len.clone();
                l[d] = k + 1;
                words += multi(&l);
                if words > 4 * max_words {
                    break;
                }
                let mut s = seqs[0].clone();
                s[d] = vec![Step::Poll(d); k];
                s[d].push(Step::Drop(d));
                seqs.push(s);
            }
        }
        let world = world.clone();
        p.case(name, move |rec| {
            let tasks: Vec<Task> = match c.iter().map(|i| alone(&world, &scenarios_cached(&world)[*i], pend)).collect() {
                Ok(t) => t,
                Err(e) => return rec.fail("alone", e),
            };
            let mut k = 0u64;
            for s in &seqs {
                interleavings(s, &mut |w| {
                    k += 1;
                    execute(rec, &world, &tasks, w, pend, k % 16 == 1 || w.iter().any(|x| matches!(x, Step::Drop(_))) && k % 4 == 0);
                });
            }
            rec.sample(|| json!({"operations": tasks.iter().map(|t| json!({"op": t.name, "polls": t.polls})).collect::<Vec<_>>(), "schedules": k}));
        });
    }
    p
}

fn scenarios_cached(world: &[Party]) -> Arc<Vec<Scenario>> {
    static C: std::sync::OnceLock<Arc<Vec<Scenario>>> = std::sync::OnceLock::new();
    C.get_or_init(|| Arc::new(scenarios(world))).clone()
}
