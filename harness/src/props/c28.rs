//! C28: an operation acts on the documents and secrets of the moment, whatever ran before it.
use crate::engine::{Env, Plan, Rec};
use crate::keys::{Enc, Key, KT};
use crate::layers::*;
use crate::msgs::simple;
use crate::ops::*;
use crate::refjose::*;
use crate::world::*;
use didcomm::did::DIDDoc;
use didcomm::secrets::Secret;
use didcomm::{FromPrior, PackEncryptedOptions};
use serde_json::json;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// What the world looks like at a moment.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum V {
    Base,
    /// same ids, all keys replaced
    Rotated,
    /// keys listed in the opposite order
    Reversed,
    /// key-agreement and authentication lists without their first entries
    Withdrawn,
    /// other services
    Moved,
    /// half of the secrets gone
    Lost,
    /// bob's and carol's documents gone
    Gone,
}
const VS: [V; 7] = [V::Base, V::Rotated, V::Reversed, V::Withdrawn, V::Moved, V::Lost, V::Gone];

struct Moment {
    world: Vec<Party>,
    docs: Vec<DIDDoc>,
}
fn moment(v: V) -> Moment {
    let mut world = stage();
    match v {
        V::Rotated => world.iter_mut().flat_map(|p| p.keys.iter_mut()).for_each(|k| k.key = Key::derive(k.key.kt, &format!("{}/rotated", k.kid))),
        V::Reversed => world.iter_mut().for_each(|p| p.keys.reverse()),
        V::Moved => {
            let to = [world[M1].kid("x2"), world[M2].did.clone()];
            world[BOB].services = vec![service(&format!("{}#new", world[BOB].did), "http://new", Some(vec!["didcomm/v2"]), &to)];
        }
        _ => {}
    }
    let mut docs = docs_of(&world);
    match v {
        V::Withdrawn => docs.iter_mut().for_each(|d| {
            if d.key_agreement.len() > 1 {
                d.key_agreement.remove(0);
            }
            if d.authentication.len() > 1 {
                d.authentication.remove(0);
            }
        }),
        V::Gone => docs.retain(|d| d.id != world[BOB].did && d.id != world[CAROL].did),
        _ => {}
    }
    Moment { world, docs }
}
fn wallet(m: &Moment, v: V, who: usize) -> Vec<Secret> {
    let s = m.world[who].secrets();
    if v == V::Lost {
        s.into_iter().skip(1).step_by(2).collect()
    } else {
        s
    }
}

/// The operations; nothing of the library runs to make them.
fn acts() -> Vec<Scenario> {
    let mut v = vec![];
    for (era, base) in [("then", V::Base), ("now", V::Rotated)] {
        let w = moment(base).world;
        let (a, b, c) = (&w[ALICE], &w[BOB], &w[CAROL]);
        let x = |p: &Party, f: &str| (p.kid(f), p.get(f).key.clone());
        let m = simple(Some(&a.did), Some(&b.did), "c28");
        let claims = json!({"iss": c.did, "sub": a.did, "exp": 7});
        let jwt = ref_jwt(&c.get("e1").key, &json!({"typ": "JWT", "alg": "EdDSA", "kid": c.kid("e1")}), &claims);
        let mut mf = m.clone();
        mf.from_prior = Some(jwt.clone());
        let plain = ref_json(&m).to_string();
        let rotated = ref_json(&mf).to_string();
        let bobs: Vec<KK> = vec![x(b, "x1"), x(b, "x2")];
        let top = |ls: &[Layer], p: &str| build(ls, p, era).pop().unwrap();
        let auth = Layer::Auth { from: x(a, "x1"), to: bobs.clone() };
        let anon = |e: &'static str| Layer::Anon { enc: e, to: bobs.clone() };
        let mut put = |name: &'static str, who: usize, op: Op| v.push(Scenario { name, who, op });
        let t = |n: &'static str, l: &'static str| if era == "then" { n } else { l };
        put(t("unpack-plain", "unpack-plain'"), BOB, Op::unpack(&rotated));
        put(t("unpack-signed", "unpack-signed'"), BOB, Op::unpack(&top(&[Layer::Sign { by: x(a, "e1") }], &plain)));
        put(t("unpack-signed-2", "unpack-signed-2'"), BOB, Op::unpack(&top(&[Layer::Sign { by: x(a, "k1") }], &plain)));
        put(t("unpack-anon", "unpack-anon'"), BOB, Op::unpack(&top(&[anon("XC20P")], &plain)));
        put(t("unpack-anon-p256", "unpack-anon-p256'"), BOB, Op::unpack(&top(&[Layer::Anon { enc: "A256GCM", to: vec![x(b, "p1")] }], &plain)));
        put(t("unpack-auth", "unpack-auth'"), BOB, Op::unpack(&top(&[auth.clone()], &rotated)));
        put(t("unpack-auth-all", "unpack-auth-all'"), BOB, Op::Unpack { text: top(&[auth.clone()], &plain), all: true, unwrap: true });
        put(t("unpack-all", "unpack-all'"), BOB, Op::unpack(&top(&[anon("A256CBC-HS512"), auth.clone(), Layer::Sign { by: x(a, "e1") }], &rotated)));
        put(t("unpack-rewrapped", "unpack-rewrapped'"), BOB, Op::unpack(&top(&[anon("A256GCM"), Layer::Fwd { next: b.did.clone() }, auth.clone()], &plain)));
        let fwd = top(&[Layer::Anon { enc: "XC20P", to: vec![x(&w[M1], "x1")] }, Layer::Fwd { next: b.did.clone() }, auth.clone()], &plain);
        put(t("unpack-forward", "unpack-forward'"), M1, Op::unpack(&fwd));
        put(t("token-unpack", "token-unpack'"), BOB, Op::FpUnpack { jwt });
        if era == "now" {
            continue;
        }
        let o = |protect: bool, forward: bool| PackEncryptedOptions { protect_sender: protect, forward, ..Default::default() };
        let enc = |msg: &didcomm::Message, to: &str, from: Option<String>, sign: Option<String>, opts| Op::Enc {
            msg: msg.clone(),
            to: to.into(),
            from,
            sign,
            opts,
        };
        put("pack-signed", ALICE, Op::Signed { msg: m.clone(), by: a.did.clone() });
        put("pack-signed-kid", ALICE, Op::Signed { msg: m.clone(), by: a.kid("k1") });
        put("pack-rotated", ALICE, Op::Plain { msg: mf.clone() });
        put("pack-anon", ALICE, enc(&m, &b.did, None, None, o(false, false)));
        put("pack-anon-kid", ALICE, enc(&m, &b.kid("x2"), None, None, o(false, false)));
        put("pack-auth", ALICE, enc(&m, &b.did, Some(a.did.clone()), None, o(false, false)));
        put("pack-auth-kid", ALICE, enc(&m, &b.kid("p1"), Some(a.kid("p1")), None, o(false, false)));
        put("pack-protect-signed", ALICE, enc(&m, &b.did, Some(a.did.clone()), Some(a.did.clone()), o(true, false)));
        put("pack-forward", ALICE, enc(&m, &b.did, Some(a.did.clone()), None, o(false, true)));
        put("pack-forward-kid", ALICE, enc(&m, &b.kid("x1"), None, None, o(false, true)));
        put("pack-back", BOB, enc(&simple(None, None, "back"), &a.did, Some(b.did.clone()), Some(b.did.clone()), o(false, true)));
        let fp = FromPrior::build(c.did.clone(), a.did.clone()).exp(7).finalize();
        put("token-pack", CAROL, Op::FpPack { fp: fp.clone(), kid: None });
        put("token-pack-kid", CAROL, Op::FpPack { fp, kid: Some(c.kid("s1")) });
        put("wrap", M1, Op::Wrap { text: json!({"opaque": [1, "two"]}).to_string(), headers: None, to: b.did.clone(), keys: vec![w[M2].did.clone(), w[M1].did.clone()], alg: Default::default() });
    }
    v
}

struct Ctx {
    acts: Vec<Scenario>,
    moments: Vec<Moment>,
    want: Vec<Vec<String>>,
}

fn perform(c: &Ctx, a: usize, v: usize) -> String {
    let (s, m) = (&c.acts[a], &c.moments[v]);
    let net = Net::new(&m.docs, &wallet(m, VS[v], s.who));
    canon_out(&run(&s.op, &net), &m.world).unwrap_or_else(|e| format!("unreadable: {e}"))
}

/// One operation in a process of its own, where nothing ran before.
pub fn solo(item: &str) {
    let n: Vec<usize> = item.split(',').map(|x| x.parse().unwrap()).collect();
    NAMING.store(n[2] as u8, std::sync::atomic::Ordering::SeqCst);
    let c = Ctx { acts: acts(), moments: VS.iter().map(|v| moment(*v)).collect(), want: vec![] };
    println!("{}", json!(perform(&c, n[0], n[1])));
}

fn solos(c: &Ctx) -> Vec<Vec<String>> {
    let jobs = Mutex::new((0..c.acts.len()).flat_map(|a| (0..VS.len()).map(move |v| (a, v))).collect::<Vec<_>>());
    let done: Mutex<HashMap<(usize, usize), String>> = Mutex::new(HashMap::new());
    let exe = std::env::current_exe().expect("own path");
    let n = naming();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let Some((a, v)) = jobs.lock().unwrap().pop() else { return };
                let o = std::process::Command::new(&exe).env("DCHK_SOLO", format!("{a},{v},{n}")).output().expect("solo run");
                let t = String::from_utf8_lossy(&o.stdout);
                let t = serde_json::from_str::<String>(t.trim()).unwrap_or_else(|_| format!("alone it ends in {}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
                done.lock().unwrap().insert((a, v), t);
            });
        }
    });
    let d = done.into_inner().unwrap();
    (0..c.acts.len()).map(|a| (0..VS.len()).map(|v| d[&(a, v)].clone()).collect()).collect()
}

fn step(c: &Ctx, rec: &mut Rec, past: &[(usize, usize)], now: (usize, usize)) {
    let what = past.iter().chain([&now]).map(|(a, v)| format!("{}@{:?}", c.acts[*a].name, VS[*v])).collect::<Vec<_>>().join(">");
    rec.begin(&what);
    rec.transitions += 1;
    let got = match rec.guarded(|| perform(c, now.0, now.1)) {
        Ok(g) => g,
        Err(p) => format!("panic: {p}"),
    };
    let want = &c.want[now.0][now.1];
    rec.outcome(if want.starts_with("Err") { want.as_str() } else { "result" });
    rec.check(&got == want, &what, || format!("{got}\n alone: {want}"));
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C28",
        "model_checking",
        "histories: every sequence of two operations (thorough: of three, over a representative third of them) out of 36 (all forms of \
         packing, unpacking, tokens and wrapping, on messages made before and after all keys were replaced), each at any of 7 \
         moments of the world (as it was, all keys replaced under the same ids, lists reversed, first keys withdrawn, services \
         changed, half the secrets lost, documents gone); each result, opened layer by layer, must be that of the same operation \
         in a fresh process. State: (what ran, at which moment)",
    );
    p.namings = if full { 2 } else { 1 };
    let mut c = Ctx { acts: acts(), moments: VS.iter().map(|v| moment(*v)).collect(), want: vec![] };
    c.want = solos(&c);
    let c = Arc::new(c);
    let (na, nv) = (c.acts.len(), VS.len());
    p.bounds = json!({"operations": na, "moments": nv, "length": if full { 3 } else { 2 }});
    for a in 0..na {
        for v in 0..nv {
            let c = c.clone();
            p.case(format!("{}@{:?}", c.acts[a].name, VS[v]), move |rec| {
                step(&c, rec, &[], (a, v));
                for b in 0..na {
                    for u in 0..nv {
                        rec.state(&(a, v, b, u));
                        rec.traces += 1;
                        rec.eval(&(a, v, b, u), c.want[b][u] != c.want[b][v]);
                        let _ = perform(&c, a, v);
                        step(&c, rec, &[(a, v)], (b, u));
                        if full && a % 3 == 0 && b % 3 == 1 && v != u {
                            for d in (2..na).step_by(3) {
                                for w in [v, u, (u + 1) % nv] {
                                    rec.state(&(a, v, b, u, d, w));
                                    rec.traces += 1;
                                    step(&c, rec, &[(a, v), (b, u)], (d, w));
                                }
                            }
                        }
                    }
                }
                rec.sample(|| json!({"first": format!("{}@{:?}", c.acts[a].name, VS[v]), "alone": c.want[a][v].chars().take(200).collect::<String>()}));
            });
        }
    }
    // long histories: one operation many times over, then all others at every moment; and the moments taking turns
    for a in 0..na {
        let c = c.clone();
        p.case(format!("long/{}", c.acts[a].name), move |rec| {
            for round in 0..if full { 20 } else { 2 } {
                let v = round % nv;
                for _ in 0..if full { 300 } else { 40 } {
                    let _ = perform(&c, a, v);
                }
                for u in 0..nv {
                    for b in (0..na).map(|b| (b + a) % na) {
                        rec.state(&("long", a, round, b, u));
                        rec.eval(&("long", a, round, b, u), true);
                        step(&c, rec, &[(a, v)], (b, u));
                    }
                }
                rec.traces += 1;
            }
        });
    }
    // the moments matter: most operations have different results at different ones
    let c2 = c.clone();
    p.case("moments", move |rec| {
        for (a, w) in c2.want.iter().enumerate() {
            let mut d = w.clone();
            d.sort();
            d.dedup();
            rec.eval(&a, true);
            rec.outcome(format!("{} different results", d.len()));
            let always_same = ["pack-rotated", "pack-signed-kid"];
            rec.check(d.len() > 1 || always_same.contains(&c2.acts[a].name), c2.acts[a].name, || format!("always {}", d[0]));
            rec.check(w.iter().any(|x| !x.starts_with("Err")), c2.acts[a].name, || "never succeeds".into());
            rec.check(w.iter().all(|x| !x.starts_with("unreadable") && !x.starts_with("alone")), c2.acts[a].name, || format!("{w:?}"));
        }
    });
    p
}
