"""Rewrites section 3 of DESIGN.md from the table below and the last quick evidence files."""
import json, re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
T = {
"C01": ("all packing modes x content algorithms x signer kinds x recipient/sender given as DID or each key id x message shapes (256 optional-member subsets, 22 bodies, attachments, payload lengths 0..70 and block edges, numbers)", "equality of the unpacked with the original message, through the library and through the reference opener"),
"C02": ("every sequence of up to 3 (4) layers built by the reference implementation, plus every library mode", "metadata computed from the layers really present: every field, never more, never less"),
"C03": ("every position of every envelope kind x substitutions/deletions/duplications, every bit of IV, tag and wrapped keys, member-wise mixes of two envelopes, header members altered one and two at a time", "either refusal or exactly the original message and the original claims about sender and algorithms"),
"C04": ("every (signing key, named kid, named algorithm) triple, every position of the signed envelope, JWS member edits, several signatures", "a reference verifier plus the rule 'listed for authentication in the document of the DID it names'"),
"C05": ("every mode x every subset of the recipient's held keys (and of everybody else's)", "opens iff an addressed key is held, where who is addressed is derived from the request and the document, not from the reported list; all readable bytes of the text, decoded recursively, are searched for content and hidden identifiers; every IV, key and ephemeral key of a history of packs is fresh"),
"C06": ("every recipient and sender key-agreement list up to length 2 (3) over six kinds of key x every held subset x addressing", "a 30-line reference model of the documented negotiation predicts the exact keys or the exact error; the produced text is peeled to confirm"),
"C07": ("every authentication list up to length 3 (4) over five kinds x every held subset x addressing", "reference selection model, signature verified with the reported key"),
"C08": ("issuer x subject x key id arguments, all claim shapes, every (signing key, named kid, algorithm, issuer) combination, token edits, carriers", "reference verifier and the packing rules"),
"C09": ("routing-key lists up to length 2 (4) over key ids, DIDs of both curves x endpoint forms x recipients x modes x headers", "the onion is peeled hop by hop by the reference implementation: exactly next hop, headers and inner envelope; nothing else readable; the last envelope unpacks"),
"C10": ("model of the unpack loop: every stack of up to 4 (5) layers over 12 layer kinds x secrets held x options", "the model's outcome (message, metadata, or the forward itself) equals the library's on the concretised stack"),
"C11": ("every single structural edit of every layer with the layers above re-encrypted; text edits; all short texts over an alphabet; documents, secrets, key material, option values; identifiers with multi-byte characters at every offset", "a value or an error of a wire kind; panics, overflow, crashes and hangs are caught"),
"C12": ("29 operations x every resolver call x every fault (nine kinds, nothing, contradiction), singly and in pairs (triples), wrong secrets, delays, orders", "error kind preserved, nothing found gives the matching kind, never a result"),
"C13": ("every interleaving of the lookups of 2 and 3 concurrent operations on real futures, every drop point of one of them", "each result equals the one of running alone; inputs unchanged"),
"C14": ("all optional-member subsets x bodies x attachments; every member removed or replaced by 26 values, singly and in pairs; builder sequences", "an independently written JSON form, and a reference decision accept/refuse for every edited form"),
"C15": ("edge-valued keys x every encoding on each side of an exchange; every type x material x key kind; corruption at every position", "exchange works with the raw key and all encodings agree; mismatches are unsupported, broken material malformed"),
"C16": ("all modes x key lists x algorithms x signers x shapes x payload lengths", "strict reference reader: members, media types, party info, curve, base64url, key derivation, header as AAD"),
"C17": ("reference-made envelopes of every nesting x permitted writings", "content and metadata must be those meant"),
"C18": ("16 recipient x sender x signer arguments x addressee lists x message senders x options (1.7 million combinations)", "a reference rule; a refused call makes no lookup"),
"C19": ("29 operations x every vector of answer times x every deviation of a callback (answered twice, dropped, reordered, every error kind); pairs of operations under every interleaving of answers with 3 (5) context switches; 48 pending at once; all options", "native operation under the equivalent native resolvers: same value, error kind and lookups, callback exactly once, second answers refused"),
"C20": ("all small documents and secrets; all writings; all query lists over stored and near-miss identifiers", "independently written JSON forms; exact-match store"),
"C21": ("lists of up to 2 (3) of 22 service descriptions x request x recipient forms", "reference selection model, onion peeled to confirm order of keys"),
"C22": ("Dolev-Yao closure over 21 honest sessions made by the real library; every sequence of 2 (3) of 24 attacker steps from every known text, all member-wise mixes of envelopes, signatures and tokens, re-encryption under learned keys; outsider and insider", "the ledger of what honest parties really sent: everything an honest receiver is told must be in it, nothing secret may be in the attacker's closure"),
"C23": ("every header deviation, alone and in pairs, then correctly encrypted, for 1..3 recipients", "refused, with the right kind, by every recipient"),
"C24": ("all option combinations x writings; all 16384 metadata subsets; all algorithm names and near misses; errors", "independently written JSON forms and defaults"),
"C25": ("1..3 (4) recipient keys of one DID x both curves x every layer kind and algorithm x every held subset x every assignment of {decrypts, entry flipped, other content key, next key's entry, not base64, empty, other secret, other curve, unknown type} x option, in the outer, inner or both layers", "who must be able to read is computed from the assignment; content and metadata from the layers"),
"C26": ("45 operations x every one and two (three) of about 110 changes to content they have no business with", "the result of the unchanged world, opened layer by layer"),
"C27": ("45 operations x every resolver call x every fault; every way of spoiling each kind of secret x every use", "everything returned, rendered or asked is searched, decoded recursively, for windows of every private, content and ephemeral key in raw, hex, base64, base58 and list form; the search itself is tested on planted leaks"),
"C28": ("all histories of two (three) operations out of 36, each at any of seven moments of a changing world", "the same operation in a process of its own"),
"C29": ("20 operations x every vector of answer forms x every deviation of a resolver method at every call (pairs); pairs of operations under every order of job-queue turns and settlements with 3 (4) delays; all options spelled out and defaulted; small JSON for every argument; declarations member by member", "the native interface on the same values; documented JavaScript shapes written by hand"),
"C30": ("histories of two (three) operations, each whole, failing at any resolver call or dropped at any poll; schedules of two with up to three switches", "all layers opened by the reference: no value, and no 12 bytes of one, ever seen before; keys and ivs among the bytes drawn during the operation"),
"C31": ("all packing modes x delivery environments x single failures; all stacks of up to 3 (4) of 12 layers x contents x holders x options; tokens, wrapping; double failures", "whom a walk over the layers the holder can open allows; every other DID in the world is mentioned in the message and exists"),
"C32": ("routes of up to 2 (3) of 5 hops x 3 endpoints x addressing x protection x every assignment of 4 habits to the nodes x a duplicated delivery at every point", "the same message handed over directly; the route; any other node must fail with a missing secret"),
}
WHY = {
"C01": "the tests hold a few fixed messages; length- and encoding-dependent slips need all lengths and shapes",
"C02": "tests compare metadata for a handful of vectors; 'never more' needs all stacks",
"C03": "tests damage one or two members", "C04": "tests try one wrong signature",
"C05": "absence of a leak cannot be asserted on a sample of modes", "C06": "the tests' documents have one order of keys",
"C07": "same", "C08": "the tests contain no token by a foreign key (this found a forgery, 684ee6b)",
"C09": "tests have one or two mediators", "C10": "tests re-wrap once", "C11": "tests use well-formed identifiers and few bad inputs",
"C12": "tests fail one resolver once", "C13": "tests never run two operations at once", "C14": "tests hold a few messages",
"C15": "tests use one key per encoding", "C16": "tests read the library's output with the library", "C17": "vectors have one writing each",
"C18": "a handful of combinations of about two million", "C19": "tests answer callbacks at once", "C20": "one document",
"C21": "one or two services", "C22": "there is no adversary in the tests", "C23": "parser-level vectors only", "C24": "no test reads options from JSON",
"C25": "one vector, all keys good", "C26": "fixed documents", "C27": "nobody looks", "C28": "one operation, one world", "C30": "a repeated nonce decrypts perfectly well", "C31": "resolvers in tests record nothing", "C32": "one route, no re-wrapping", "C29": "the wrapper's tests need a browser; here they cannot run",
}
out = []
for p in P:
    i = p["id"]
    try:
        e = json.load(open(f"{R}/evidence/{i}.json")); c = e["coverage"]
        n = f"{c.get('states')} states, {c.get('transitions')} transitions, {c.get('traces_validated_against_impl')} traces on the code" if e["level"] == "model_checking" else f"{c['evaluations']} evaluations"
        n += f", {e['wall_s']:.0f} s"
    except Exception:
        n = "not run"
    out.append(f"**{i} {p['title']}.** *Enumerated:* {T[i][0]}. *Oracle:* {T[i][1]}. *Why tests cannot:* {WHY[i]}. *Size (quick):* {n}.\n")
t = open(f"{R}/DESIGN.md").read()
a = t.index("<!-- props -->"); b = t.index("<!-- /props -->")
open(f"{R}/DESIGN.md", "w").write(t[:a] + "<!-- props -->\n" + "\n".join(out) + t[b:])

# planted bugs
rows = ["| bug | property | needs | what breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    c = lambda x: str(x).replace("|", "/").replace("\n", " ")
    rows.append(f"| {d} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
t = open(f"{R}/DESIGN.md").read()
a = t.index("<!-- seeded -->"); b = t.index("<!-- /seeded -->")
open(f"{R}/DESIGN.md", "w").write(t[:a] + "<!-- seeded -->\n" + "\n".join(rows) + "\n" + t[b:])
