
// ---- the published TypeScript declarations ----

/// `type Name = { member?: type, ... }`: name, members (name, optional, type).
fn ts_types() -> BTreeMap<String, Vec<(String, bool, String)>> {
    let mut out = BTreeMap::new();
    for (name, body) in ts_aliases() {
        let b = body.trim();
        if !b.starts_with('{') {
            continue;
        }
        let inner = &b[1..b.rfind('}').unwrap_or(b.len())];
        let mut members = vec![];
        for part in split_top(inner) {
            let Some((n, t)) = part.split_once(':') else { continue };
            let (n, t) = (n.trim(), t.trim());
            if n.starts_with('[') {
                continue;
            }
            members.push((n.trim_end_matches('?').to_string(), n.ends_with('?'), t.to_string()));
        }
        out.insert(name, members);
    }
    out
}
/// `type Name = ...`
fn ts_aliases() -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for s in wasm_bindgen::typescript() {
        // comments away
        let mut t = String::new();
        let mut rest = s;
        while let Some(i) = rest.find("/*") {
            t.push_str(&rest[..i]);
            rest = rest[i..].find("*/").map(|j| &rest[i + j + 2..]).unwrap_or("");
        }
        t.push_str(rest);
        let t: String = t.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
        let mut rest = t.as_str();
        while let Some(i) = rest.find("type ") {
            let Some((n, r)) = rest[i + 5..].split_once('=') else { break };
            let name = n.trim().to_string();
            // up to the next declaration
            let end = ["\ntype ", "\ninterface ", "\nexport "].iter().filter_map(|k| r.find(k)).min().unwrap_or(r.len());
            out.insert(name, r[..end].trim().trim_end_matches(';').to_string());
            rest = &r[end..];
        }
    }
    out
}
fn split_top(s: &str) -> Vec<String> {
    let (mut d, mut cur, mut out) = (0i32, String::new(), vec![]);
    for c in s.chars() {
        match c {
            '<' | '{' | '[' | '(' => d += 1,
            '>' | '}' | ']' | ')' => d -= 1,
            _ => {}
        }
        if (c == ',' || c == ';') && d == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
    }
    out.push(cur);
    out
}
fn literals(t: &str) -> (Vec<String>, bool) {
    let l = t.split('|').map(str::trim).filter(|x| x.starts_with('"')).map(|x| x.trim_matches('"').to_string()).collect();
    (l, t.split('|').any(|x| x.trim() == "string"))
}

/// Values a declared type admits (none when the type is not understood here).
fn values_of(t: &str, types: &BTreeMap<String, Vec<(String, bool, String)>>, aliases: &BTreeMap<String, String>) -> Vec<Value> {
    let t = t.trim();
    let alts = split_at(t, '|');
    if alts.len() > 1 {
        return alts.iter().flat_map(|a| values_of(a, types, aliases)).collect();
    }
    if let Some(x) = t.strip_suffix("[]") {
        return values_of(&format!("Array<{x}>"), types, aliases);
    }
    if let Some(x) = t.strip_prefix("Array<").and_then(|x| x.strip_suffix('>')) {
        let v = values_of(x, types, aliases);
        return if v.is_empty() { vec![] } else { vec![json!([]), json!(v)] };
    }
    if let Some(x) = t.strip_prefix("Record<").and_then(|x| x.strip_suffix('>')) {
        let kv = split_top(x);
        let v = kv.get(1).map(|v| values_of(v, types, aliases)).unwrap_or_default();
        return v.into_iter().map(|v| json!({"some": v})).collect();
    }
    if let Some(x) = t.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
        let parts: Vec<Value> = split_top(x).iter().filter_map(|p| values_of(p, types, aliases).into_iter().next()).collect();
        return vec![Value::Array(parts)];
    }
    match t {
        "string" => return vec![json!("text")],
        "number" => return vec![json!(1)],
        "boolean" => return vec![json!(true), json!(false)],
        "any" | "object" => return vec![json!({"some": "thing"})],
        "null" => return vec![Value::Null],
        _ if t.starts_with('"') => return vec![json!(t.trim_matches('"'))],
        _ => {}
    }
    if !types.contains_key(t) {
        if let Some(a) = aliases.get(t) {
            return values_of(a, types, aliases);
        }
    }
    vec![]
}
fn split_at(s: &str, sep: char) -> Vec<String> {
    let (mut d, mut out) = (0i32, vec![String::new()]);
    for c in s.chars() {
        match c {
            '<' | '{' | '[' | '(' => d += 1,
            '>' | '}' | ']' | ')' => d -= 1,
            _ => {}
        }
        if c == sep && d == 0 {
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out.retain(|x| !x.trim().is_empty());
    out
}
/// Is the value of the declared type? (Types not understood here admit anything.)
fn conforms(v: &Value, t: &str, types: &BTreeMap<String, Vec<(String, bool, String)>>, aliases: &BTreeMap<String, String>) -> bool {
    let t = t.trim();
    let alts = split_at(t, '|');
    if alts.len() > 1 {
        return alts.iter().any(|a| conforms(v, a, types, aliases));
    }
    if let Some(x) = t.strip_suffix("[]").or(t.strip_prefix("Array<").and_then(|x| x.strip_suffix('>'))) {
        return v.as_array().is_some_and(|a| a.iter().all(|v| conforms(v, x, types, aliases)));
    }
    if t.starts_with("Record<") || t.starts_with('{') {
        return v.is_object();
    }
    match t {
        "string" => v.is_string(),
        "number" => v.is_number(),
        "boolean" => v.is_boolean(),
        _ if t.starts_with('"') => v.as_str() == Some(t.trim_matches('"')),
        _ => match (types.get(t), aliases.get(t)) {
            (Some(m), _) => v.as_object().is_some_and(|o| {
                m.iter().all(|(n, opt, ty)| match o.get(n) {
                    None | Some(Value::Null) => *opt,
                    Some(v) => conforms(v, ty, types, aliases),
                })
            }),
            (None, Some(a)) => conforms(v, a, types, aliases),
            _ => true,
        },
    }
}

/// Reads a value the way the wrapper does and shows what was understood.
type Reader = Box<dyn Fn(&Value) -> Option<String>>;
fn reader<T: for<'a> serde::Deserialize<'a> + std::fmt::Debug>() -> Reader {
    Box::new(|v| {
        let r: Option<T> = js(v).into_serde().ok();
        r.map(|x| format!("{x:?}"))
    })
}

fn typescript_case(rec: &mut Rec) {
    let types = ts_types();
    let aliases = ts_aliases();
    rec.sample(|| json!({"types": types.keys().collect::<Vec<_>>()}));
    let vm = |k: &str, v: Value| json!({"id": "did:a:b#1", "type": "JsonWebKey2020", "controller": "did:a:b", k: v});
    let sec = |k: &str, v: Value| json!({"id": "did:a:b#1", "type": "JsonWebKey2020", k: v});
    let service = json!({"id": "did:a:b#s", "type": "DIDCommMessaging", "serviceEndpoint": {"uri": "http://a", "accept": ["didcomm/v2"], "routingKeys": ["did:a:c"]}});
    let doc = json!({"id": "did:a:b", "keyAgreement": ["did:a:b#1"], "authentication": ["did:a:b#1"],
        "verificationMethod": [vm("publicKeyJwk", json!({}))], "service": [service]});
    let data = |d: Value| json!({"data": d});
    let inputs: Vec<(&str, Vec<Value>, Reader)> = vec![
        ("DIDDoc", vec![doc], reader::<DIDDoc>()),
        (
            "VerificationMethod",
            vec![vm("publicKeyJwk", json!({})), vm("publicKeyMultibase", json!("z1")), vm("publicKeyBase58", json!("1"))],
            reader::<didcomm::did::VerificationMethod>(),
        ),
        ("Service", vec![service.clone(), json!({"id": "did:a:b#t", "type": "LinkedDomains", "serviceEndpoint": {"a": 1}})], reader::<didcomm::did::Service>()),
        (
            "DIDCommMessagingService",
            vec![service["serviceEndpoint"].clone()],
            Box::new({
                let s = service.clone();
                let r = reader::<didcomm::did::Service>();
                move |v| {
                    let mut s = s.clone();
                    s["serviceEndpoint"] = v.clone();
                    r(&s)
                }
            }),
        ),
        (
            "Secret",
            vec![sec("privateKeyJwk", json!({})), sec("privateKeyMultibase", json!("z1")), sec("privateKeyBase58", json!("1"))],
            reader::<Secret>(),
        ),
        (
            "PackEncryptedOptions",
            vec![json!({"protect_sender": true, "forward": false, "forward_headers": {"a": "b"}, "messaging_service": "did:a:b#s",
                "enc_alg_auth": "A256cbcHs512Ecdh1puA256kw", "enc_alg_anon": "A256gcmEcdhEsA256kw"})],
            reader::<PackEncryptedOptions>(),
        ),
        (
            "UnpackOptions",
            vec![json!({"expect_decrypt_by_all_keys": true, "unwrap_re_wrapping_forward": false})],
            reader::<UnpackOptions>(),
        ),
        ("IFromPrior", vec![json!({"iss": "did:a:b", "sub": "did:a:c", "aud": "x", "exp": 1, "nbf": 2, "iat": 3, "jti": "j"})], reader::<FromPrior>()),
        (
            "Attachment",
            vec![json!({"data": {"json": 1}, "id": "1", "description": "d", "filename": "f", "media_type": "m", "format": "x",
                "lastmod_time": 1, "byte_count": 2})],
            reader::<didcomm::Attachment>(),
        ),
        ("Base64AttachmentData", vec![json!({"base64": "aa", "jws": "j"})], Box::new(move |v| reader::<didcomm::Attachment>()(&data(v.clone())))),
        ("JsonAttachmentData", vec![json!({"json": 1, "jws": "j"})], Box::new(move |v| reader::<didcomm::Attachment>()(&data(v.clone())))),
        (
            "LinksAttachmentData",
            vec![json!({"links": ["l"], "hash": "h", "jws": "j"})],
            Box::new(move |v| reader::<didcomm::Attachment>()(&data(v.clone()))),
        ),
    ];
    let probes = [json!({"probe": 1}), json!("probe"), json!(["probe"]), json!(77), json!(false)];
    for (name, samples, read) in &inputs {
        let Some(members) = types.get(*name) else {
            rec.fail(format!("ts/{name}"), "is not declared any more".to_string());
            continue;
        };
        let mut needed = false;
        for s in samples {
            rec.check(read(s).is_some(), format!("ts/{name}"), || format!("{s} is not understood"));
        }
        for (m, optional, ty) in members {
            rec.begin(&format!("ts/{name}.{m}"));
            rec.eval(&(name, m), true);
            // a member that is declared is read: some value of it makes a difference
            let reads = samples.iter().any(|s| {
                let base = read(s);
                probes.iter().any(|p| {
                    let mut v = s.clone();
                    v[m] = p.clone();
                    read(&v) != base
                })
            });
            rec.check(reads, format!("ts/{name}.{m}"), || "is declared, but whatever it holds is ignored".into());
            if *optional {
                // may be left out of a sample that has it
                for s in samples.iter().filter(|s| s.get(m).is_some() && !m.starts_with("publicKey") && !m.starts_with("privateKey")) {
                    let mut v = s.clone();
                    v.as_object_mut().unwrap().remove(m);
                    rec.check(read(&v).is_some(), format!("ts/{name}.{m}"), || format!("is declared optional, but {v} is refused"));
                }
            } else {
                needed = true;
            }
            // whatever value the declared type admits is accepted (members of one another excluded)
            for p in values_of(ty, &types, &aliases) {
                rec.eval(&(name, m, &p.to_string()), true);
                let ok = samples.iter().any(|s| {
                    let mut v = s.clone();
                    v[m] = p.clone();
                    read(&v).is_some()
                });
                rec.check(ok, format!("ts/{name}.{m}:type"), || format!("is declared as {ty}, but {p} is refused"));
            }
            // every value the declaration lists is accepted
            let ty = aliases.get(ty).filter(|a| a.contains('"')).unwrap_or(ty);
            let (lit, any) = literals(ty);
            for l in lit.iter().cloned().chain((any || (*name == "Service" && m == "type")).then(|| "SomethingElse".to_string())) {
                rec.eval(&(name, m, &l), true);
                let ok = samples.iter().any(|s| {
                    let mut v = s.clone();
                    v[m] = json!(l);
                    read(&v).is_some()
                });
                rec.check(ok, format!("ts/{name}.{m}={l}"), || format!("is a declared value of {m}, but refused"));
            }
        }
        let _ = needed;
    }
}

/// Output members: those present are declared, those declared without `?` are present.
fn outputs_case(rec: &mut Rec, world: &[Party]) {
    let types = ts_types();
    let aliases = ts_aliases();
    let mut ops: Vec<(String, usize, Op)> = parameter_ops(world);
    ops.extend(scenarios(world).into_iter().map(|s| (s.name.to_string(), s.who, as_js(&s.op))));
    for (name, who, op) in ops {
        let ty = match op {
            Op::Enc { .. } => "PackEncryptedMetadata",
            Op::Signed { .. } => "PackSignedMetadata",
            Op::Unpack { .. } => "UnpackMetadata",
            _ => continue,
        };
        rec.begin(&name);
        let s = Session::new(net_of(world, who), When::Settled, BTreeMap::new());
        let r = s.start(&op, false);
        wasm_bindgen::drain();
        let Some(Ok(v)) = r.promise.result() else { continue };
        let Kind::Array(a) = &v.0 else { continue };
        let md = back(&a.borrow()[1]);
        rec.eval(&(ty, md.as_object().map(|o| o.keys().cloned().collect::<Vec<_>>())), true);
        let Some(members) = types.get(ty) else {
            rec.fail(format!("out/{ty}"), "is not declared any more".to_string());
            continue;
        };
        for (k, v) in md.as_object().into_iter().flatten() {
            rec.check(v.is_null() || members.iter().any(|m| m.0 == *k), format!("out/{ty}.{k}"), || "is returned, but not declared".into());
            if let Some(m) = members.iter().find(|m| m.0 == *k) {
                rec.check(v.is_null() || conforms(v, &m.2, &types, &aliases), format!("out/{ty}.{k}:type"), || format!("is declared as {}, but {v} is returned", m.2));
                let (lit, any) = literals(&m.2);
                if let (Some(t), false, false) = (v.as_str(), lit.is_empty(), any) {
                    rec.check(lit.iter().any(|l| l == t), format!("out/{ty}.{k}={t}"), || "is returned, but not among the declared values".into());
                }
            }
        }
        for (m, opt, _) in members {
            let have = md.get(m).map(|v| !v.is_null()).unwrap_or(false);
            rec.check(*opt || have || (ty == "UnpackMetadata" && m == "sign_from"), format!("out/{ty}.{m}"), || format!("is declared as always there, but {md} has none"));
        }
    }
}

/// Arguments that are JavaScript values: accepted exactly when the native type can be read from them.
fn arguments_case(rec: &mut Rec, world: &[Party], depth: u32) {
    let (a, b) = (world[ALICE].did.clone(), world[BOB].did.clone());
    let full = crate::msgs::simple(Some(&a), Some(&b), "arguments");
    let base = crate::layers::ref_json(&full);
    let values: Vec<(Value, JsValue)> = small_json(depth).into_iter().map(|v| (v.clone(), js(&v))).chain([(Value::Null, JsValue::UNDEFINED)]).collect();
    let refused = |e: &JsValue| matches!(error_res(e), Ok(Res::Err(n, _)) if n == "DIDCommMalformed");

    // Message
    let mut objs: Vec<Value> = values.iter().map(|v| v.0.clone()).collect();
    let members = ["id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments", "other"];
    for m in members {
        let mut v = base.clone();
        v.as_object_mut().unwrap().remove(m);
        objs.push(v);
        for (x, _) in &values {
            let mut v = base.clone();
            v[m] = x.clone();
            objs.push(v);
        }
    }
    for (i, o) in objs.iter().enumerate() {
        rec.begin(&format!("message-{i}"));
        rec.eval(&o.to_string(), true);
        let want: Option<Message> = serde_json::from_str(&o.to_string()).ok();
        let got = didcomm_js::Message::new(js(o).into());
        match (want, got) {
            (Some(w), Ok(g)) => {
                let v = g.as_value().map(|v| back(&v)).unwrap_or(json!("as_value failed"));
                let w = crate::layers::ref_json(&w);
                rec.check(v == w, "message", || format!("{o} became {v}\n instead of {w}"));
            }
            (None, Err(e)) => {
                rec.check(refused(&e), "message", || format!("{o}: {e:?}"));
            }
            (w, g) => rec.fail("message", format!("{o}: native accepts: {}, JavaScript: {}", w.is_some(), g.is_ok())),
        }
    }
    // FromPrior
    let fp = json!({"iss": a, "sub": b, "aud": "x", "exp": 1, "nbf": 2, "iat": 3, "jti": "j"});
    let mut objs: Vec<Value> = values.iter().map(|v| v.0.clone()).collect();
    for m in ["iss", "sub", "aud", "exp", "nbf", "iat", "jti", "other"] {
        let mut v = fp.clone();
        v.as_object_mut().unwrap().remove(m);
        objs.push(v);
        for (x, _) in &values {
            let mut v = fp.clone();
            v[m] = x.clone();
            objs.push(v);
        }
    }
    for o in &objs {
        rec.begin("token");
        rec.eval(&o.to_string(), true);
        let want: Option<FromPrior> = serde_json::from_str(&o.to_string()).ok();
        let got = didcomm_js::FromPrior::new(js(o).into());
        match (want, got) {
            (Some(w), Ok(g)) => {
                let v = g.as_value().map(|v| lean(back(&v))).unwrap_or(json!("as_value failed"));
                let w = lean(fp_js(&w));
                rec.check(v == w, "token", || format!("{o} became {v}\n instead of {w}"));
            }
            (None, Err(e)) => {
                rec.check(refused(&e), "token", || format!("{o}: {e:?}"));
            }
            (w, g) => rec.fail("token", format!("{o}: native accepts: {}, JavaScript: {}", w.is_some(), g.is_ok())),
        }
    }
    // options and the other object parameters
    let mut pack: Vec<(Value, JsValue)> = values.clone();
    for m in ["protect_sender", "forward", "forward_headers", "messaging_service", "enc_alg_auth", "enc_alg_anon", "other"] {
        for x in values.iter().map(|v| v.0.clone()).chain([json!("A256cbcHs512Ecdh1puA256kw"), json!("Xc20pEcdhEsA256kw"), json!({"a": "b"})]) {
            pack.push((json!({m: x.clone()}), js(&json!({m: x}))));
        }
    }
    let mut unpack: Vec<(Value, JsValue)> = values.clone();
    for m in ["expect_decrypt_by_all_keys", "unwrap_re_wrapping_forward", "other"] {
        for (x, _) in &values {
            unpack.push((json!({m: x}), js(&json!({m: x}))));
        }
    }
    let mut net = net_of(world, ALICE);
    net.secrets.extend(net_of(world, BOB).secrets);
    let packed = match native(&Op::Enc { msg: full.clone(), to: b.clone(), from: Some(a.clone()), sign: None,
        opts: PackEncryptedOptions { forward: false, ..Default::default() } }, &net_of(world, ALICE)) {
        Res::Text(t, _) => t,
        r => panic!("{r:?}"),
    };
    let both = || {
        let mut n = net_of(world, ALICE);
        n.secrets.extend(net_of(world, BOB).secrets);
        n
    };
    let mut compare = |what: &str, v: &Value, want: Option<Res>, start: &dyn Fn(&Session) -> Run, op: &Op| {
        rec.begin(what);
        rec.eval(&(what, v.to_string()), true);
        rec.traces += 1;
        let s = Session::new(both(), When::Settled, BTreeMap::new());
        let got = rec.guarded(|| {
            let r = start(&s);
            wasm_bindgen::drain();
            outcome(op, &r)
        });
        let got = match got.and_then(|x| x) {
            Ok(g) => g,
            Err(e) => return rec.fail(what, e),
        };
        match want {
            None => {
                rec.check(matches!(&got, Res::Err(n, _) if n == "DIDCommMalformed"), what, || format!("{v} is no such argument, yet {}", got.label()));
            }
            Some(w) => {
                let (g, w) = (got.canon(world), w.canon(world));
                rec.check(g == w, what, || format!("{v}: {g}\n instead of {w}"));
            }
        }
    };
    for (v, j) in &pack {
        let opts: Option<PackEncryptedOptions> = serde_json::from_value(v.clone()).ok();
        let op = |o: &PackEncryptedOptions| {
            let opts = PackEncryptedOptions {
                protect_sender: o.protect_sender,
                forward: o.forward,
                forward_headers: o.forward_headers.clone(),
                messaging_service: o.messaging_service.clone(),
                enc_alg_auth: o.enc_alg_auth.clone(),
                enc_alg_anon: o.enc_alg_anon.clone(),
            };
            Op::Enc { msg: full.clone(), to: b.clone(), from: Some(a.clone()), sign: None, opts }
        };
        let want = opts.as_ref().map(|o| native(&op(o), &both()));
        compare("pack-options", v, want, &|s| {
            let (d, k) = s.resolvers();
            Run { promise: jsmsg(&full).unwrap().pack_encrypted(b.clone(), Some(a.clone()), None, d, k, j.clone()).into(), refused: None }
        }, &op(&Default::default()));
    }
    for (v, j) in &unpack {
        let opts: Option<UnpackOptions> = serde_json::from_value(v.clone()).ok();
        let op = |o: &UnpackOptions| Op::Unpack { text: packed.clone(), all: o.expect_decrypt_by_all_keys, unwrap: o.unwrap_re_wrapping_forward };
        let want = opts.as_ref().map(|o| native(&op(o), &both()));
        compare("unpack-options", v, want, &|s| {
            let (d, k) = s.resolvers();
            Run { promise: didcomm_js::Message::unpack(packed.clone(), d, k, j.clone()).into(), refused: None }
        }, &op(&Default::default()));
    }
    for (v, j) in &values {
        let keys = vec![world[M1].did.clone()];
        let wrap = |headers: HashMap<String, Value>, keys: Vec<String>, alg: AnonCryptAlg| Op::Wrap { text: packed.clone(), headers: Some(headers), to: b.clone(), keys, alg };
        let plain = wrap(Default::default(), vec![], AnonCryptAlg::Xc20pEcdhEsA256kw);
        let h: Option<HashMap<String, Value>> = serde_json::from_value(v.clone()).ok();
        let want = h.map(|h| native(&wrap(h, keys.clone(), AnonCryptAlg::Xc20pEcdhEsA256kw), &both()));
        compare("wrap-headers", v, want, &|s| {
            let p = didcomm_js::Message::wrap_in_forward(packed.clone(), j.clone(), b.clone(), js(&json!(keys)), "Xc20pEcdhEsA256kw".into(), s.resolvers().0);
            Run { promise: p.into(), refused: None }
        }, &plain);
        let k: Option<Vec<String>> = serde_json::from_value(v.clone()).ok();
        let want = k.map(|k| native(&wrap(Default::default(), k, AnonCryptAlg::Xc20pEcdhEsA256kw), &both()));
        compare("wrap-keys", v, want, &|s| {
            let p = didcomm_js::Message::wrap_in_forward(packed.clone(), js(&json!({})), b.clone(), j.clone(), "Xc20pEcdhEsA256kw".into(), s.resolvers().0);
            Run { promise: p.into(), refused: None }
        }, &plain);
        let al: Option<AnonCryptAlg> = serde_json::from_value(v.clone()).ok();
        let want = al.map(|x| native(&wrap(Default::default(), keys.clone(), x), &both()));
        compare("wrap-alg", v, want, &|s| {
            let p = didcomm_js::Message::wrap_in_forward(packed.clone(), js(&json!({})), b.clone(), js(&json!(keys)), j.clone(), s.resolvers().0);
            Run { promise: p.into(), refused: None }
        }, &plain);
    }

    // try_parse_forward
    let fwd = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "https://didcomm.org/routing/2.0/forward",
        "body": {"next": "did:example:x"}, "attachments": [{"data": {"json": {"a": 1}}}]});
    let mut cands = vec![fwd.clone(), base.clone()];
    for path in ["/type", "/body", "/body/next", "/attachments", "/attachments/0", "/attachments/0/data", "/attachments/0/data/json", "/typ"] {
        for (x, _) in &values {
            let mut v = fwd.clone();
            *v.pointer_mut(path).unwrap() = x.clone();
            cands.push(v);
        }
    }
    for l in [0, 2] {
        let mut v = fwd.clone();
        v["attachments"] = json!(vec![fwd["attachments"][0].clone(); l]);
        cands.push(v);
    }
    for v in &cands {
        rec.begin("forward");
        let Ok(m) = serde_json::from_value::<Message>(v.clone()) else { continue };
        rec.eval(&v.to_string(), true);
        let want = match try_parse_forward(&m) {
            None => Value::Null,
            Some(p) => json!({"msg": crate::layers::ref_json(p.msg), "next": p.next, "forwarded_msg": p.forwarded_msg}),
        };
        let got = jsmsg(&m).and_then(|m| m.try_parse_forward()).map(|v| back(&v));
        rec.check(got.as_ref().ok() == Some(&want), "forward", || format!("{v} parsed as {got:?}\n instead of {want}"));
    }
}

pub fn plan(env: &Env) -> Plan {
    let full = env.thorough();
    let mut p = Plan::new(
        "C29",
        "model_checking",
        "the operations of the JavaScript interface x every vector of answer forms (plain value / settled promise / promise \
         settled later) x every single deviation of a resolver method at every call (each named error, foreign errors, other \
         thrown values, null, undefined, contradiction, answers of the wrong type, ids reordered, doubled, foreign, members \
         nobody declared), all pairs of them when thorough; two operations at once under every order of job-queue turns and \
         promise settlements within a delay bound; every option combination, spelled out and left to defaults; every small \
         JSON value for every object argument; the TypeScript declarations member by member: results, metadata, error names \
         and lookups equal the native interface's, every promise settles",
    );
    p.assumptions = vec![
        "a model of JavaScript values, promises and the job queue stands in for the engine and for the generated glue".into(),
        "numbers beyond 2^53 are JavaScript's own limit and are not compared".into(),
    ];
    let world = stage();
    let scen: Vec<Scenario> = scenarios(&world).into_iter().map(|s| Scenario { op: as_js(&s.op), ..s }).collect();
    let delays = if full { 4 } else { 3 };
    p.bounds = json!({"operations": scen.len(), "deviations per run": if full {2} else {1}, "delays": delays, "delays of the other pairs": 3});

    for s in &scen {
        let (world, op, who, name) = (world.clone(), s.op.clone(), s.who, s.name);
        p.case(format!("op/{name}"), move |rec| {
            let calls = judge(rec, &world, who, &op, When::Settled, &BTreeMap::new(), "settled", false);
            rec.sample(|| json!({"operation": name, "calls": calls}));
            let n = calls.len();
            let free = n.min(if full { 7 } else { 5 });
            for v in 0..3usize.pow(free as u32) {
                let at = |i: usize| WHENS[v / 3usize.pow((i % free.max(1)) as u32) % 3];
                let plan = (0..n).map(|i| (i, (at(i), How::Honest))).collect();
                judge(rec, &world, who, &op, When::Settled, &plan, &format!("forms-{v}"), v % 2 == 1);
            }
            for when in WHENS {
                let mut stack: Vec<(BTreeMap<usize, (When, How)>, Vec<String>)> = vec![(BTreeMap::new(), calls.clone())];
                while let Some((set, calls)) = stack.pop() {
                    let from = set.keys().next_back().map(|i| i + 1).unwrap_or(0);
                    for i in from..calls.len() {
                        for h in all_hows() {
                            if !h.applies(&calls[i]) {
                                continue;
                            }
                            let mut s2 = set.clone();
                            s2.insert(i, (when, h));
                            let what = s2.iter().map(|(i, (w, h))| format!("{w:?}-{i}-{h:?}")).collect::<Vec<_>>().join("+");
                            let c = judge(rec, &world, who, &op, when, &s2, &what, false);
                            if full && s2.len() < 2 && when == When::Later {
                                stack.push((s2, c));
                            }
                        }
                    }
                }
            }
        });
    }

    // two operations at once: at every step any runnable task may take its turn, any open promise may settle
    let names = ["pack-signed-did", "pack-auth", "pack-protect-signed-rotated", "unpack-auth", "unpack-rewrapped-did", "token-unpack", "token-pack", "wrap"];
    let sel: Vec<&Scenario> = scen.iter().filter(|s| full || names.contains(&s.name)).collect();
    for (i, s) in sel.iter().enumerate() {
        for t in &sel[i..] {
            let world = world.clone();
            let ops = [s.op.clone(), t.op.clone()];
            let delays = if names.contains(&s.name) && names.contains(&t.name) { delays } else { 3 };
            p.case(format!("pair/{}+{}", s.name, t.name), move |rec| {
                let net = || Net::new(&docs_of(&world), &world.iter().flat_map(|p| p.secrets()).collect::<Vec<_>>());
                let want: Vec<String> = ops.iter().map(|o| native(o, &net()).canon(&world)).collect();
                let mut todo: Vec<Vec<usize>> = vec![vec![]];
                while let Some(pre) = todo.pop() {
                    let what = format!("{pre:?}");
                    rec.begin(&what);
                    let s = Session::new(net(), When::Later, BTreeMap::new());
                    let runs: Vec<Run> = ops.iter().map(|o| s.start(o, false)).collect();
                    let mut done = vec![];
                    let mut used = 0;
                    loop {
                        let (r, q) = (wasm_bindgen::ready(), s.pending());
                        if r + q == 0 {
                            break;
                        }
                        let d = done.len();
                        let c = if d < pre.len() { pre[d] } else { 0 };
                        if d >= pre.len() {
                            for alt in 1..r + q {
                                if used + 1 <= delays {
                                    let mut n = done.clone();
                                    n.push(alt);
                                    todo.push(n);
                                }
                            }
                        }
                        used += (c > 0) as usize;
                        if c < r {
                            wasm_bindgen::turn(c);
                        } else if c - r < q {
                            s.deliver(c - r);
                        }
                        rec.transitions += 1;
                        done.push(c);
                        rec.state(&(s.calls(), s.pending(), wasm_bindgen::ready(), &want));
                    }
                    rec.eval(&what, true);
                    rec.traces += 1;
                    for k in 0..2 {
                        match outcome(&ops[k], &runs[k]) {
                            Ok(r) => {
                                rec.outcome(r.label());
                                let c = r.canon(&world);
                                rec.check(c == want[k], &what, || format!("operation {k} gave {c}\n alone it gives {}", want[k]));
                            }
                            Err(e) => rec.fail(&what, format!("operation {k}: {e}")),
                        }
                    }
                }
            });
        }
    }

    let ops = parameter_ops(&world);
    for (i, chunk) in ops.chunks(24).enumerate() {
        let (world, chunk) = (world.clone(), chunk.to_vec());
        p.case(format!("parameters/{i}"), move |rec| {
            for (name, who, op) in &chunk {
                for terse in [false, true] {
                    judge(rec, &world, *who, op, When::Plain, &BTreeMap::new(), name, terse);
                }
            }
        });
    }
    let w = world.clone();
    p.case("arguments", move |rec| arguments_case(rec, &w, 1));
    p.case("declarations/inputs", |rec| typescript_case(rec));
    let w = world.clone();
    p.case("declarations/outputs", move |rec| outputs_case(rec, &w));
    p
}
