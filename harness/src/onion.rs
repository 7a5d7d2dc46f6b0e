//! Peeling forward onions with the reference implementation.
use crate::layers::*;
use crate::refjose::*;
use crate::world::*;
use serde_json::{json, Map, Value};

/// The keys anonymous encryption to `to` must use (all of the first supported type for a DID).
pub fn anon_targets(to: &str, world: &[Party]) -> Vec<KK> {
    let did = to.split('#').next().unwrap();
    let p = world.iter().find(|p| p.did == did).expect("party of a routing key");
    if to.contains('#') {
        let k = p.keys.iter().find(|k| k.kid == to).expect("routing key");
        return vec![(k.kid.clone(), k.key.clone())];
    }
    let ty = p.keys.iter().find(|k| k.ka).expect("a key agreement key").key.kt;
    p.keys.iter().filter(|k| k.ka && k.key.kt == ty).map(|k| (k.kid.clone(), k.key.clone())).collect()
}

pub struct Hop {
    /// what the hop's key holder sees after opening
    pub plain: String,
    pub id: String,
    pub next: String,
    /// the JWE handed to this hop
    pub sealed: String,
}

/// Opens every layer with every key that must be able to; returns the hops and the innermost message (as JSON text).
pub fn peel_onion(
    text: &str,
    keys: &[String],
    to: &str,
    headers: &Map<String, Value>,
    enc: &str,
    world: &[Party],
) -> Result<(Vec<Hop>, String), String> {
    let look = lookup(world);
    let mut cur = text.to_string();
    let mut hops: Vec<Hop> = vec![];
    for (i, rk) in keys.iter().enumerate() {
        let want = anon_targets(rk, world);
        let mut plain: Option<Vec<u8>> = None;
        for (kid, key) in &want {
            let o = open_jwe(&cur, kid, key, &|k| look(k)).map_err(|e| format!("hop {i} ({rk}) with {kid}: {e}"))?;
            if o.skid.is_some() {
                return Err(format!("hop {i} is not anonymous"));
            }
            if o.enc != enc {
                return Err(format!("hop {i} uses {}, asked for {enc}", o.enc));
            }
            let kids: Vec<&String> = want.iter().map(|w| &w.0).collect();
            if o.kids.iter().collect::<Vec<_>>() != kids {
                return Err(format!("hop {i} is addressed to {:?}, expected {kids:?}", o.kids));
            }
            if plain.get_or_insert_with(|| o.pt.clone()) != &o.pt {
                return Err(format!("hop {i}: recipients read different contents"));
            }
        }
        let plain = String::from_utf8(plain.unwrap()).map_err(|_| "forward not UTF-8")?;
        let v: Value = serde_json::from_str(&plain).map_err(|e| format!("hop {i}: {e}"))?;
        let next = keys.get(i + 1).map(|s| s.as_str()).unwrap_or(to);
        let id = v["id"].as_str().ok_or("forward has no id")?.to_string();
        let inner = v["attachments"][0]["data"]["json"].clone();
        let mut w = headers.clone();
        w.insert("id".into(), json!(id));
        w.insert("typ".into(), json!("application/didcomm-plain+json"));
        w.insert("type".into(), json!("https://didcomm.org/routing/2.0/forward"));
        w.insert("body".into(), json!({ "next": next }));
        w.insert("attachments".into(), json!([{"data": {"json": inner}}]));
        if v != Value::Object(w.clone()) {
            return Err(format!("hop {i}: forward is {v}, expected next {next} and headers {headers:?}"));
        }
        if id.is_empty() || hops.iter().any(|h| h.id == id) {
            return Err(format!("hop {i}: forward id {id:?} is empty or reused"));
        }
        hops.push(Hop { plain, id, next: next.into(), sealed: cur });
        cur = inner.to_string();
    }
    Ok((hops, cur))
}
