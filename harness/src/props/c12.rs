//! C12: every resolver call of every operation as a fault point.
use crate::engine::{Env, Plan, Rec};
use crate::ops::*;
use crate::world::*;
use didcomm::error::ErrorKind;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};

fn all_faults() -> Vec<Fault> {
    let mut v: Vec<Fault> = (0..KINDS.len()).map(|i| Fault::Err(ErrorKind2(i))).collect();
    v.push(Fault::None);
    v.push(Fault::Liar);
    v
}
fn fault_name(f: Fault) -> String {
    match f {
        Fault::Err(k) => format!("{:?}", k.kind()),
        f => format!("{f:?}"),
    }
}

struct Base<'a> {
    world: &'a [Party],
    op: &'a Op,
    who: usize,
    canon: String,
    calls: Vec<String>,
    /// for a re-wrapped message: what it is when the wrapping is not opened
    unopened: Vec<String>,
}

fn judge(rec: &mut Rec, b: &Base, faults: &BTreeMap<usize, Fault>, what: &str) -> Vec<String> {
    let mut net = net_of(b.world, b.who);
    net.faults = faults.clone();
    rec.begin(what);
    let before = b.op.inputs();
    let out = run(b.op, &net);
    let calls = net.calls();
    let reached: Vec<(usize, Fault)> = faults.iter().filter(|(i, _)| **i < calls.len()).map(|(i, f)| (*i, *f)).collect();
    rec.eval(what, !reached.is_empty());
    rec.outcome(format!("{}", out.label()));
    rec.check(before == b.op.inputs(), what, || "the operation changed its inputs".into());
    // only a fault that changes an answer matters; for a resolver of DIDs "Liar" is no fault
    let eff: Vec<(usize, Fault)> = reached
        .iter()
        .filter(|(i, f)| !(*f == Fault::Liar && calls[*i].starts_with("resolve")))
        .copied()
        .collect();
    if eff.is_empty() {
        let c = canon_out(&out, b.world).unwrap_or_else(|e| format!("unreadable: {e}"));
        rec.check(c == b.canon, what, || format!("nothing failed, yet the result is {c}\n instead of {}", b.canon));
        return calls;
    }
    let first_err = eff.iter().find_map(|(i, f)| match f {
        Fault::Err(k) => Some((*i, k.kind())),
        _ => None,
    });
    if let Some((i, k)) = first_err {
        rec.check(out == Out::Err(k), what, || {
            format!("`{}` failed with {k:?}; the operation gave {}", calls[i], out.label())
        });
        return calls;
    }
    // only "nothing there" answers and contradictions
    match &out {
        Out::Err(k) => {
            let (i, f) = eff[eff.len() - 1];
            let c = &calls[i];
            let ok: &[ErrorKind] = if c.starts_with("resolve") {
                &[ErrorKind::DIDNotResolved]
            } else if c.starts_with("find") && f == Fault::None {
                &[ErrorKind::SecretNotFound]
            } else {
                &[ErrorKind::SecretNotFound, ErrorKind::InvalidState]
            };
            // a later honest answer may be what ends it when an earlier one was a lie
            let lied = eff.iter().any(|(_, f)| *f == Fault::Liar);
            rec.check(
                ok.contains(k) || (lied && matches!(k, ErrorKind::SecretNotFound | ErrorKind::InvalidState)),
                what,
                || format!("`{c}` answered {f:?}; the operation failed with {k:?} instead of one of {ok:?}"),
            );
        }
        o => {
            let c = canon_out(o, b.world).unwrap_or_else(|e| format!("unreadable: {e}"));
            // Acceptable successes: a lie that happens to be harmless; the forward message itself when
            // the reader is told that the next hop is not one of its keys.
            let harmless = c == b.canon && eff.iter().all(|(_, f)| *f == Fault::Liar);
            let unopened = b.unopened.contains(&c) && eff.iter().all(|(i, f)| calls[*i].starts_with("find") || *f == Fault::Liar);
            rec.check(harmless || unopened, what, || {
                format!(
                    "succeeded although {}: {c}",
                    eff.iter().map(|(i, f)| format!("`{}` answered {f:?}", calls[*i])).collect::<Vec<_>>().join(", ")
                )
            });
        }
    }
    calls
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C12",
        "fault_enumeration",
        "29 operations covering every packing and unpacking path x every resolver call they make x every fault (each error \
         kind, nothing found, found-but-missing), singly and in all pairs (and triples when thorough): an error keeps its \
         kind, a missing answer gives the matching error kind and never a result; without faults, delayed answers and \
         permuted documents and secrets leave the result unchanged. Non-trivial: the faulted call was really made",
    );
    p.assumptions = vec![
        "a resolver that answers consistently but falsely (a wrong document) is outside: it is trusted input".into(),
    ];
    let world = stage();
    let scen = scenarios(&world);
    p.bounds = json!({"operations": scen.len(), "faults per run": if full {3} else {2}, "fault kinds": all_faults().len()});
    for s in scen {
        let world = world.clone();
        let name = s.name;
        let Scenario { who, op, .. } = s;
        p.case(name, move |rec| {
            let net = net_of(&world, who);
            let out = run(&op, &net);
            let canon = match canon_out(&out, &world) {
                Ok(c) if out.kind().is_none() => c,
                o => return rec.fail("baseline", format!("{o:?}")),
            };
            let calls = net.calls();
            let unopened: Vec<String> = match &op {
                Op::Unpack { text, all, .. } => {
                    let o = run(&Op::Unpack { text: text.clone(), all: *all, unwrap: false }, &net_of(&world, who));
                    match canon_out(&o, &world) {
                        Ok(c) if c != canon || name == "unpack-forward-to-mediator" => vec![c],
                        _ => vec![],
                    }
                }
                _ => vec![],
            };
            let b = Base { world: &world, op: &op, who, canon, calls, unopened };
            rec.sample(|| json!({"operation": name, "calls": b.calls, "result": b.canon.chars().take(300).collect::<String>()}));
            judge(rec, &b, &BTreeMap::new(), "none");
            let faults = all_faults();
            let few: Vec<Fault> = vec![Fault::Err(ErrorKind2(4)), Fault::Err(ErrorKind2(3)), Fault::None, Fault::Liar];
            // depth-first over sets of faulted call indices; a deeper fault is placed on the calls the run with the
            // shallower faults really made
            let depth = if full { 3 } else { 2 };
            let mut stack: Vec<(BTreeMap<usize, Fault>, usize)> = vec![(BTreeMap::new(), b.calls.len())];
            while let Some((set, n)) = stack.pop() {
                let from = set.keys().next_back().map(|i| i + 1).unwrap_or(0);
                for i in from..n {
                    let fs: &Vec<Fault> = if set.is_empty() || full { &faults } else { &few };
                    for f in fs {
                        let mut s2 = set.clone();
                        s2.insert(i, *f);
                        let what = s2
                            .iter()
                            .map(|(i, f)| format!("{i}-{}", fault_name(*f)))
                            .collect::<Vec<_>>()
                            .join("+");
                        let c = judge(rec, &b, &s2, &what);
                        if s2.len() < depth && !matches!(f, Fault::Err(_)) {
                            stack.push((s2, c.len()));
                        }
                    }
                }
            }
            // the secrets resolver hands out another key than the one asked for
            for (i, c) in b.calls.iter().enumerate() {
                let Some(id) = c.strip_prefix("get_secret ") else { continue };
                let mut net = net_of(&world, who);
                for n in 0..net.secrets.len() {
                    if net.secrets[n].id == id {
                        continue;
                    }
                    net.faults = [(i, Fault::Swap(n))].into();
                    net.log.borrow_mut().clear();
                    let what = format!("{i}-swap-{n}");
                    rec.eval(&what, true);
                    let out = run(&op, &net);
                    rec.outcome(format!("swap {}", out.label()));
                    if matches!(op, Op::Unpack { .. }) {
                        rec.check(out.kind().is_some(), &what, || "unpacked with the wrong secret".into());
                    } else if let Ok(c) = canon_out(&out, &world) {
                        // whoever can read the result must not be told that the named key made it
                        rec.check(out.kind().is_some() || c != b.canon, &what, || "made with another key, yet readable".into());
                    }
                }
            }
            // nothing fails: delays, order of secrets and of verification methods do not matter
            for pend in [1u32, 2, 7] {
                for perm in 0..4u32 {
                    let mut net = net_of(&world, who);
                    net.pend.set(pend);
                    if perm & 1 == 1 {
                        net.secrets.reverse();
                    }
                    if perm & 2 == 2 {
                        for d in net.docs.values_mut() {
                            d.verification_method.reverse();
                        }
                    }
                    let what = format!("delay-{pend}-{perm}");
                    rec.eval(&what, true);
                    let out = run(&op, &net);
                    let c = canon_out(&out, &world).unwrap_or_else(|e| format!("unreadable: {e}"));
                    rec.check(c == b.canon, &what, || format!("differs from the undelayed result: {c}\n {}", b.canon));
                    rec.check(net.calls() == b.calls, &what, || "made other lookups".into());
                }
            }
            // a resolver that lacks one of the documents it needs answers the same every time
            let dids: HashSet<String> = b.calls.iter().filter_map(|c| c.strip_prefix("resolve ")).map(|s| s.to_string()).collect();
            for d in dids {
                let what = format!("without-{d}");
                let mut net = net_of(&world, who);
                net.docs.remove(&d);
                rec.eval(&what, true);
                let out = run(&op, &net);
                rec.check(out == Out::Err(ErrorKind::DIDNotResolved), &what, || format!("{}", out.label()));
            }
        });
    }
    p
}
