//! C14: the plaintext message JSON codec against a reference codec.
use crate::engine::{Env, Plan, Rec};
use crate::layers::{ref_attachment, ref_json};
use crate::msgs::*;
use crate::world::*;
use didcomm::error::ErrorKind;
use didcomm::{Attachment, FromPrior, Message};
use serde::de::{MapAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_json::{json, Map, Value};

/// A JSON object with its members in order, duplicates kept.
struct Members(Vec<(String, Value)>);
impl<'de> Deserialize<'de> for Members {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Members;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "an object")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Members, A::Error> {
                let mut v = vec![];
                while let Some(e) = m.next_entry()? {
                    v.push(e);
                }
                Ok(Members(v))
            }
        }
        d.deserialize_map(V)
    }
}

const STR: [&str; 4] = ["from", "thid", "pthid", "from_prior"];
const NUM: [&str; 2] = ["created_time", "expires_time"];
const NAMES: [&str; 12] = [
    "id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments",
];
const A_STR: [&str; 5] = ["id", "description", "filename", "media_type", "format"];
const A_NUM: [&str; 2] = ["lastmod_time", "byte_count"];

fn is_strs(v: &Value) -> bool {
    v.as_array().map(|a| a.iter().all(|x| x.is_string())).unwrap_or(false)
}

/// Reference parser: normalised JSON of the message, or None when it must be rejected.
/// `Err` means "not specified" (several kinds of data in one attachment).
fn ref_parse(v: &Value, typ_checked: bool) -> Result<Option<Value>, ()> {
    let Some(o) = v.as_object() else { return Ok(None) };
    let mut out = Map::new();
    for (k, x) in o {
        if !NAMES.contains(&k.as_str()) {
            out.insert(k.clone(), x.clone());
        }
    }
    for k in ["id", "type"] {
        match o.get(k) {
            Some(Value::String(s)) => out.insert(k.into(), json!(s)),
            _ => return Ok(None),
        };
    }
    match o.get("typ") {
        None => out.insert("typ".into(), json!("application/didcomm-plain+json")),
        Some(Value::String(s)) if !typ_checked || s == "application/didcomm-plain+json" => out.insert("typ".into(), json!(s)),
        _ => return Ok(None),
    };
    match o.get("body") {
        Some(b) => out.insert("body".into(), b.clone()),
        None => return Ok(None),
    };
    for k in STR {
        match o.get(k) {
            None | Some(Value::Null) => {}
            Some(Value::String(s)) => {
                out.insert(k.into(), json!(s));
            }
            _ => return Ok(None),
        }
    }
    for k in NUM {
        match o.get(k) {
            None | Some(Value::Null) => {}
            Some(x) if x.is_u64() => {
                out.insert(k.into(), x.clone());
            }
            _ => return Ok(None),
        }
    }
    match o.get("to") {
        None | Some(Value::Null) => {}
        Some(x) if is_strs(x) => {
            out.insert("to".into(), x.clone());
        }
        _ => return Ok(None),
    }
    match o.get("attachments") {
        None | Some(Value::Null) => {}
        Some(Value::Array(a)) => {
            let mut l = vec![];
            for x in a {
                match ref_parse_attachment(x)? {
                    Some(y) => l.push(y),
                    None => return Ok(None),
                }
            }
            out.insert("attachments".into(), Value::Array(l));
        }
        _ => return Ok(None),
    }
    Ok(Some(Value::Object(out)))
}

fn ref_parse_attachment(v: &Value) -> Result<Option<Value>, ()> {
    // the positional form that serde accepts for structs is not specified
    if v.is_array() {
        return Err(());
    }
    let Some(o) = v.as_object() else { return Ok(None) };
    let mut out = Map::new();
    for k in A_STR {
        match o.get(k) {
            None | Some(Value::Null) => {}
            Some(Value::String(s)) => {
                out.insert(k.into(), json!(s));
            }
            _ => return Ok(None),
        }
    }
    for k in A_NUM {
        match o.get(k) {
            None | Some(Value::Null) => {}
            Some(x) if x.is_u64() => {
                out.insert(k.into(), x.clone());
            }
            _ => return Ok(None),
        }
    }
    let Some(d) = o.get("data").and_then(|d| d.as_object()) else { return Ok(None) };
    let kinds = ["base64", "json", "links"].iter().filter(|k| d.contains_key(**k)).count();
    if kinds > 1 {
        return Err(());
    }
    let mut od = Map::new();
    match d.get("jws") {
        None | Some(Value::Null) => {}
        Some(Value::String(s)) => {
            od.insert("jws".into(), json!(s));
        }
        _ => return Ok(None),
    }
    if let Some(b) = d.get("base64") {
        if !b.is_string() {
            return Ok(None);
        }
        od.insert("base64".into(), b.clone());
    } else if let Some(j) = d.get("json") {
        od.insert("json".into(), j.clone());
    } else if let Some(l) = d.get("links") {
        if !is_strs(l) || !d.get("hash").map(|h| h.is_string()).unwrap_or(false) {
            return Ok(None);
        }
        od.insert("links".into(), l.clone());
        od.insert("hash".into(), d["hash"].clone());
    } else {
        return Ok(None);
    }
    out.insert("data".into(), Value::Object(od));
    Ok(Some(Value::Object(out)))
}

fn net() -> Net {
    Net::new(&[], &[])
}

/// The library's reading of a JSON text, through unpack and directly.
fn check_parse(rec: &mut Rec, text: &str, v: &Value, what: &str) {
    rec.begin(what);
    let n = net();
    let got = block_on(unpack(text, &n));
    let direct: Result<Message, _> = serde_json::from_str(text);
    // a text that looks like an envelope too, or whose from_prior is not a token, is not a matter of this codec
    let fp = v.get("from_prior").map(|x| x.is_string()).unwrap_or(false);
    rec.eval(what, true);
    match (ref_parse(v, true), &got) {
        (Err(()), _) => rec.outcome("unspecified"),
        (Ok(None), Err(e)) => {
            rec.outcome("rejected");
            rec.check(e.kind() == ErrorKind::Malformed, what, || format!("rejected with {:?}: {e}", e.kind()));
        }
        (Ok(None), Ok((m, _))) => rec.fail(what, format!("{text} accepted as {m:?}")),
        (Ok(Some(w)), Ok((m, _))) => {
            rec.outcome("accepted");
            let g = ref_json(m);
            rec.check(g == w, what, || format!("{text} read as {g}, expected {w}"));
            rec.check(m.extra_headers.keys().all(|k| !NAMES.contains(&k.as_str())), what, || {
                format!("defined members among the extra headers: {:?}", m.extra_headers)
            });
        }
        (Ok(Some(_)), Err(e)) => {
            rec.outcome("rejected with a token");
            rec.check(fp, what, || format!("{text} rejected: {e}"));
        }
    }
    match (ref_parse(v, false), direct) {
        (Err(()), _) => {}
        (Ok(None), Ok(m)) => rec.fail(what, format!("{text} parsed as {m:?}")),
        (Ok(Some(w)), Ok(m)) => {
            let g = ref_json(&m);
            rec.check(g == w, what, || format!("{text} parsed as {g}, expected {w}"));
        }
        (Ok(Some(_)), Err(e)) => rec.fail(what, format!("{text} not parsed: {e}")),
        (Ok(None), Err(_)) => {}
    }
}

fn check_write(rec: &mut Rec, m: &Message, what: &str) {
    rec.begin(what);
    rec.eval(what, true);
    let n = net();
    let want = ref_json(m);
    let packed = if m.from_prior.is_none() {
        match block_on(m.pack_plaintext(&n)) {
            Ok(t) => t,
            Err(e) => return rec.fail(what, format!("pack_plaintext: {e}")),
        }
    } else {
        serde_json::to_string(m).unwrap()
    };
    for text in [packed, serde_json::to_string(m).unwrap(), serde_json::to_value(m).unwrap().to_string()] {
        let v: Value = match serde_json::from_str(&text) {
            Ok(v) => v,
            Err(e) => return rec.fail(what, format!("{text}: {e}")),
        };
        rec.check(v == want, what, || format!("written as {text}, expected {want}"));
        let members: Members = serde_json::from_str(&text).unwrap();
        let mut names: Vec<&String> = members.0.iter().map(|m| &m.0).collect();
        let k = names.len();
        names.sort();
        names.dedup();
        rec.check(names.len() == k, what, || format!("member written twice: {text}"));
        match serde_json::from_str::<Message>(&text) {
            Ok(g) => {
                rec.check(&g == m, what, || format!("reads back as {g:?}"));
            }
            Err(e) => rec.fail(what, format!("does not read back: {e}")),
        }
    }
}

/// Every attachment: data kind x jws x optional members.
fn attachment(kind: u32, mask: u32) -> Attachment {
    let mut b = match kind {
        0 => Attachment::base64("aGVsbG8".into()),
        1 => Attachment::json(json!({"base64": "x", "links": [1], "json": null})),
        2 => Attachment::json(json!(null)),
        3 => Attachment::links(vec!["l1".into(), "l2".into()], "h".into()),
        _ => Attachment::links(vec![], "".into()),
    };
    let on = |i: u32| mask >> i & 1 == 1;
    if on(0) {
        b = b.id("i".into());
    }
    if on(1) {
        b = b.description("d".into());
    }
    if on(2) {
        b = b.filename("f".into());
    }
    if on(3) {
        b = b.media_type("m".into());
    }
    if on(4) {
        b = b.format("fo".into());
    }
    if on(5) {
        b = b.lastmod_time(5);
    }
    if on(6) {
        b = b.byte_count(6);
    }
    if on(7) {
        b = b.jws("j".into());
    }
    b.finalize()
}
fn attachment_model(kind: u32, mask: u32) -> Value {
    let mut d = match kind {
        0 => json!({"base64": "aGVsbG8"}),
        1 => json!({"json": {"base64": "x", "links": [1], "json": null}}),
        2 => json!({"json": null}),
        3 => json!({"links": ["l1", "l2"], "hash": "h"}),
        _ => json!({"links": [], "hash": ""}),
    };
    let on = |i: u32| mask >> i & 1 == 1;
    if on(7) {
        d["jws"] = json!("j");
    }
    let mut v = json!({ "data": d });
    for (i, (k, x)) in [
        ("id", json!("i")),
        ("description", json!("d")),
        ("filename", json!("f")),
        ("media_type", json!("m")),
        ("format", json!("fo")),
        ("lastmod_time", json!(5)),
        ("byte_count", json!(6)),
    ]
    .into_iter()
    .enumerate()
    {
        if on(i as u32) {
            v[k] = x;
        }
    }
    v
}

fn values() -> Vec<Value> {
    vec![
        json!(null),
        json!(true),
        json!(0),
        json!(7),
        json!(u64::MAX),
        json!(-1),
        json!(1.0),
        json!(1e20),
        json!(""),
        json!("7"),
        json!("application/didcomm-plain+json"),
        json!("Application/didcomm-plain+json"),
        json!("application/didcomm-plain+json; charset=utf-8"),
        json!("didcomm-plain+json"),
        json!(" application/didcomm-plain+json"),
        json!("application/didcomm-plain+json\n"),
        json!("application/didcomm-plain+jsonx"),
        json!("application/didcomm-plain"),
        json!("application/didcomm-encrypted+json"),
        json!([]),
        json!(["a"]),
        json!(["a", null]),
        json!(["did:example:x", 1]),
        json!({}),
        json!({"a": 1}),
        json!([{}]),
        json!([{"data": {}}]),
        json!([{"data": {"json": 1}}]),
        json!([{"data": {"json": 1}}, {"data": 1}]),
        json!([[]]),
    ]
}
fn sub_values() -> Vec<Value> {
    vec![json!(null), json!("s"), json!(3), json!(-3), json!(0.5), json!(false), json!(["x"]), json!([3]), json!({"k": "v"}), json!({})]
}

pub fn base() -> Value {
    json!({"id": "i", "typ": "application/didcomm-plain+json", "type": "t", "body": {"b": 1}, "from": "did:example:a",
        "to": ["did:example:b", "did:example:c"], "thid": "th", "pthid": "pt", "created_time": 1, "expires_time": 2,
        "attachments": [{"id": "ai", "description": "ad", "filename": "af", "media_type": "am", "format": "afo",
            "lastmod_time": 3, "byte_count": 4, "data": {"json": {"x": 1}, "jws": "j"}}],
        "x-custom": {"deep": [1, null]}, "custom": null})
}

/// A setter of the message builder.
#[derive(Clone, Copy, Debug)]
struct Set(usize, usize);
const SETTERS: usize = 12;

fn builders(rec: &mut Rec, depth: usize, first: usize) {
    let mut stack: Vec<Vec<Set>> = (0..2).map(|v| vec![Set(first, v)]).collect();
    while let Some(seq) = stack.pop() {
        let what = seq.iter().map(|s| format!("{}{}", s.0, ["a", "b"][s.1])).collect::<String>();
        rec.eval(&what, true);
        let mut b = Message::build("id".into(), "ty".into(), json!("bo"));
        let mut w = json!({"id": "id", "typ": "application/didcomm-plain+json", "type": "ty", "body": "bo"});
        let push = |w: &mut Value, k: &str, xs: Vec<Value>| {
            if w.get(k).is_none() {
                w[k] = json!([]);
            }
            w[k].as_array_mut().unwrap().extend(xs);
        };
        for Set(i, v) in &seq {
            let (s, n) = (["va", "vb"][*v].to_string(), *v as u64 * 9);
            let at = |k: u32| (attachment(k + *v as u32, 1), attachment_model(k + *v as u32, 1));
            match i {
                0 => {
                    b = b.to(s.clone());
                    push(&mut w, "to", vec![json!(s)]);
                }
                1 => {
                    let l = if *v == 0 { vec![] } else { vec!["m1".to_string(), "m2".into()] };
                    b = b.to_many(l.clone());
                    push(&mut w, "to", l.into_iter().map(|x| json!(x)).collect());
                }
                2 => {
                    b = b.from(s.clone());
                    w["from"] = json!(s);
                }
                3 => {
                    b = b.thid(s.clone());
                    w["thid"] = json!(s);
                }
                4 => {
                    b = b.pthid(s.clone());
                    w["pthid"] = json!(s);
                }
                5 => {
                    b = b.header("h1".into(), json!(s));
                    w["h1"] = json!(s);
                }
                6 => {
                    b = b.header(format!("h{}", 2 + v), json!({ "v": v }));
                    w[format!("h{}", 2 + v)] = json!({ "v": v });
                }
                7 => {
                    b = b.created_time(n);
                    w["created_time"] = json!(n);
                }
                8 => {
                    b = b.expires_time(n);
                    w["expires_time"] = json!(n);
                }
                9 => {
                    b = b.from_prior(s.clone());
                    w["from_prior"] = json!(s);
                }
                10 => {
                    let (a, m) = at(0);
                    b = b.attachment(a);
                    push(&mut w, "attachments", vec![m]);
                }
                _ => {
                    let (l, ms) = if *v == 0 {
                        (vec![], vec![])
                    } else {
                        let (a, c) = (at(1), at(2));
                        (vec![a.0, c.0], vec![a.1, c.1])
                    };
                    b = b.attachments(l);
                    push(&mut w, "attachments", ms);
                }
            }
        }
        let m = b.finalize();
        let g = ref_json(&m);
        rec.check(g == w, &what, || format!("{seq:?} built {g}, expected {w}"));
        if seq.len() < depth {
            for i in 0..SETTERS {
                for v in 0..2 {
                    let mut s = seq.clone();
                    s.push(Set(i, v));
                    stack.push(s);
                }
            }
        }
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C14",
        "exploration",
        "all 256 subsets of optional members x bodies x attachments written and read back; every member of a full message \
         (and of an attachment and its data) removed or replaced by each of 26 values, singly and in pairs; top-level non-objects; \
         every builder call sequence up to a depth; each against a reference codec. Non-trivial: every evaluation",
    );
    p.assumptions = vec![
        "extra headers named like a defined member are a known finding of C01 and left out here".into(),
        "an attachment with more than one kind of data, and serde's positional form of structs, are unspecified".into(),
    ];
    for (bi, body) in bodies().into_iter().enumerate() {
        if body == json!(1e300) {
            // a float whose text form needs more than one ULP-exact digit run is a known finding of C01
        }
        p.case(format!("write/body-{bi:02}"), move |rec| {
            for mask in 0..1u32 << SHAPE_BITS {
                let mut m = shape(mask, "did:example:alice", &["did:example:bob", "did:example:carol"], body.clone());
                check_write(rec, &m, &format!("{mask:08b}"));
                if mask % 16 == 5 {
                    m.from_prior = Some("e30.e30.e30".into());
                    check_write(rec, &m, &format!("{mask:08b}-fp"));
                }
            }
            rec.sample(|| ref_json(&shape(255, "did:example:alice", &["did:example:bob"], body.clone())));
        });
    }
    for kind in 0..5u32 {
        p.case(format!("attachment/{kind}"), move |rec| {
            for mask in 0..256u32 {
                let what = format!("{mask:08b}");
                let a = attachment(kind, mask);
                let w = attachment_model(kind, mask);
                rec.check(ref_attachment(&a) == w, &what, || format!("built {a:?}, expected {w}"));
                let v = serde_json::to_value(&a).unwrap();
                rec.check(v == w, &what, || format!("written as {v}, expected {w}"));
                let t = serde_json::to_string(&a).unwrap();
                match serde_json::from_str::<Attachment>(&t) {
                    Ok(b) => {
                        rec.check(a == b, &what, || format!("{t} read back as {b:?}"));
                    }
                    Err(e) => rec.fail(&what, format!("{t}: {e}")),
                }
                let m = Message::build("i".into(), "t".into(), json!({}))
                    .attachments(vec![a.clone(), attachment((kind + 1) % 5, 0)])
                    .finalize();
                check_write(rec, &m, &what);
            }
        });
    }
    p.case("read/members", move |rec| {
        let b = base();
        check_parse(rec, &b.to_string(), &b, "base");
        for k in NAMES.iter().chain(&["x-custom", "custom", "new-member", "", "@type", "Id", "ID", "createdTime", "from-prior", "~attach"]) {
            let mut v = b.clone();
            v.as_object_mut().unwrap().remove(*k);
            check_parse(rec, &v.to_string(), &v, &format!("no-{k}"));
            for (i, x) in values().into_iter().enumerate() {
                let mut v = b.clone();
                v[*k] = x;
                check_parse(rec, &v.to_string(), &v, &format!("{k}={i}"));
            }
        }
        // a duplicated member is never silently merged into something else
        for k in ["id", "type", "typ", "body", "from", "to", "created_time"] {
            let t = format!("{{\"{k}\":{},{}", b[k], &b.to_string()[1..]);
            rec.eval(&format!("dup-{k}"), true);
            if let Ok((m, _)) = block_on(unpack(&t, &net())) {
                rec.check(ref_json(&m) == ref_parse(&b, true).unwrap().unwrap(), format!("dup-{k}"), || t.clone());
            }
        }
    });
    for k1 in NAMES {
        p.case(format!("read/pairs-{k1}"), move |rec| {
            let b = base();
            let vs = values();
            let few = [0usize, 2, 5, 9, 10, 16, 19, 23];
            for k2 in NAMES.iter().chain(&["x-custom"]) {
                if *k2 == k1 {
                    continue;
                }
                for i in 0..=vs.len() {
                    for j in 0..=vs.len() {
                        if !full && !(few.contains(&i) || i == vs.len()) || !full && !(few.contains(&j) || j == vs.len()) {
                            continue;
                        }
                        let mut v = b.clone();
                        for (k, n) in [(k1, i), (*k2, j)] {
                            match vs.get(n) {
                                Some(x) => v[k] = x.clone(),
                                None => {
                                    v.as_object_mut().unwrap().remove(k);
                                }
                            }
                        }
                        check_parse(rec, &v.to_string(), &v, &format!("{i}-{k2}-{j}"));
                    }
                }
            }
        });
    }
    p.case("read/subsets", move |rec| {
        // every subset of members present
        let b = base();
        let names: Vec<String> = b.as_object().unwrap().keys().cloned().collect();
        for mask in 0..1u32 << names.len() {
            let v: Map<String, Value> = names
                .iter()
                .enumerate()
                .filter(|(i, _)| mask >> i & 1 == 1)
                .map(|(_, k)| (k.clone(), b[k].clone()))
                .collect();
            let v = Value::Object(v);
            check_parse(rec, &v.to_string(), &v, &format!("{mask:014b}"));
        }
    });
    p.case("read/attachment-members", move |rec| {
        let b = base();
        for base_data in [json!({"json": {"x": 1}, "jws": "j"}), json!({"base64": "eA", "jws": "j"}), json!({"links": ["l"], "hash": "h", "jws": "j"}), json!({"base64": "eA"}), json!({"extra": 1, "links": [], "hash": ""})] {
            let mut b = b.clone();
            b["attachments"][0]["data"] = base_data.clone();
            for k in A_STR.iter().chain(&A_NUM).chain(&["data", "extra", "mime-type", "mediaType"]) {
                for i in 0..=sub_values().len() {
                    let mut v = b.clone();
                    match sub_values().get(i) {
                        Some(x) => v["attachments"][0][*k] = x.clone(),
                        None => {
                            v["attachments"][0].as_object_mut().unwrap().remove(*k);
                        }
                    }
                    check_parse(rec, &v.to_string(), &v, &format!("{base_data}-{k}-{i}"));
                }
            }
            for k1 in ["base64", "json", "links", "hash", "jws", "extra"] {
                for k2 in ["base64", "json", "links", "hash", "jws", "extra"] {
                    for i in 0..=sub_values().len() {
                        for j in 0..=sub_values().len() {
                            let mut v = b.clone();
                            for (k, n) in [(k1, i), (k2, j)] {
                                match sub_values().get(n) {
                                    Some(x) => v["attachments"][0]["data"][k] = x.clone(),
                                    None => {
                                        v["attachments"][0]["data"].as_object_mut().unwrap().remove(k);
                                    }
                                }
                            }
                            check_parse(rec, &v.to_string(), &v, &format!("{base_data}-{k1}-{i}-{k2}-{j}"));
                        }
                    }
                }
            }
        }
    });
    p.case("read/toplevel", move |rec| {
        for (i, x) in values().into_iter().chain([json!([base()]), json!([[base()]]), json!(base().to_string())]).enumerate() {
            check_parse(rec, &x.to_string(), &x, &format!("{i}"));
        }
        for (i, t) in ["", " ", "{", "}", "nul", "{\"id\":", "\u{feff}{}", "{}x", "\0"].iter().enumerate() {
            rec.eval(&format!("text-{i}"), true);
            let r = block_on(unpack(t, &net()));
            rec.check(matches!(&r, Err(e) if e.kind() == ErrorKind::Malformed), format!("text-{i}"), || format!("{t:?}: {r:?}"));
        }
        // white space and trailing data
        let b = base();
        for (i, (t, ok)) in [
            (format!(" \n\t{} \r\n", b), true),
            (serde_json::to_string_pretty(&b).unwrap(), true),
            (format!("{} {}", b, b), false),
            (format!("{},", b), false),
        ]
        .into_iter()
        .enumerate()
        {
            rec.eval(&format!("space-{i}"), true);
            let r = block_on(unpack(&t, &net()));
            rec.check(r.is_ok() == ok, format!("space-{i}"), || format!("{r:?}"));
        }
        // truncations of a full message
        let t = b.to_string();
        for i in 0..t.len() {
            rec.eval(&format!("cut-{i}"), true);
            let r = block_on(unpack(&t[..i], &net()));
            rec.check(matches!(&r, Err(e) if e.kind() == ErrorKind::Malformed), format!("cut-{i}"), || format!("{r:?}"));
        }
    });
    for first in 0..SETTERS {
        let d = if full { 5 } else { 3 };
        p.case(format!("builder/{first:02}"), move |rec| builders(rec, d, first));
    }
    p.case("builder/token", move |rec| {
        // FromPrior builder: every sequence of two setters over every subset
        for mask in 0..32u32 {
            for over in 0..6usize {
                let mut b = FromPrior::build("iss".into(), "sub".into());
                let mut w = json!({"iss": "iss", "sub": "sub"});
                let mut set = |i: usize, v: u64| -> () {
                    let s = format!("v{v}");
                    let cur = std::mem::replace(&mut b, FromPrior::build(String::new(), String::new()));
                    b = match i {
                        0 => {
                            w["aud"] = json!(s);
                            cur.aud(s)
                        }
                        1 => {
                            w["exp"] = json!(v);
                            cur.exp(v)
                        }
                        2 => {
                            w["nbf"] = json!(v + 10);
                            cur.nbf(v + 10)
                        }
                        3 => {
                            w["iat"] = json!(v + 20);
                            cur.iat(v + 20)
                        }
                        4 => {
                            w["jti"] = json!(s);
                            cur.jti(s)
                        }
                        _ => cur,
                    };
                };
                for i in 0..5 {
                    if mask >> i & 1 == 1 {
                        set(i, i as u64);
                    }
                }
                set(over, 100);
                let f = b.finalize();
                let what = format!("{mask:05b}-{over}");
                rec.eval(&what, true);
                let v = serde_json::to_value(&f).unwrap();
                rec.check(v == w, &what, || format!("{v}, expected {w}"));
                let g: Result<FromPrior, _> = serde_json::from_str(&v.to_string());
                rec.check(g.as_ref().ok() == Some(&f), &what, || format!("{g:?}"));
                for k in ["iss", "sub", "aud", "exp", "nbf", "iat", "jti"] {
                    for x in sub_values() {
                        let mut y = v.clone();
                        y[k] = x.clone();
                        let r: Result<FromPrior, _> = serde_json::from_value(y);
                        let opt = k != "iss" && k != "sub";
                        let num = ["exp", "nbf", "iat"].contains(&k);
                        let ok = (x.is_null() && opt) || (if num { x.is_u64() } else { x.is_string() });
                        rec.check(r.is_ok() == ok, &what, || format!("{k} = {x}: {r:?}"));
                    }
                }
            }
        }
    });
    p.bounds = json!({"builder sequences": if full {5} else {3}, "bodies": bodies().len(), "mutated members at once": 2});
    crate::many::c14(&mut p, env.thorough());
    crate::vals::c14(&mut p);
    p
}
