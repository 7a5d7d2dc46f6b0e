#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Pack then unpack returns the identical message",
 "For every message, every packing mode (plaintext, signed, anonymous or authenticated encryption, with or without signature and sender protection), every supported algorithm and every supported key type and encoding, unpacking the packed string with the recipient's secrets succeeds and yields a message equal to the original in every field.",
 ["inputs", "configurations"],
 "all packing modes x content/signature algorithms x key types and encodings x DID-or-key addressing x message shapes (every optional header present/absent, unicode, boundary lengths)",
 "The suite packs two or three fixed messages with three fixed identities; field/length/algorithm/key-layout combinations are never crossed, and it cannot run at all in the baseline environment.",
 ["src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/message/pack_plaintext.rs", "src/message/unpack/mod.rs", "src/jwe/encrypt.rs", "src/jwe/decrypt.rs", "src/jws/sign.rs", "src/jws/verify.rs"],
 [("layered pack", "Message::pack_encrypted"), ("layered unpack loop", "Message::unpack"), ("JWE", "jwe::encrypt / ParsedJWE::decrypt"), ("JWS", "jws::sign / ParsedJWS::verify")],
 ["packed string", "unpacked Message"])
prop("C02", "Unpack metadata states exactly which protections were on the message",
 "After a successful unpack the returned metadata (encrypted, authenticated, non-repudiation, anonymous sender, sender and recipient key ids, signer key id, algorithms, retained signed message) states exactly the protection layers that the packed message really carried and the keys that really made them: never more, never less. This holds for plain, signed, anonymously encrypted and authenticated messages and for every supported nesting of them.",
 ["inputs", "configurations"],
 "all layer stacks built by the library and by an independent packer, all algorithms, all subsets of recipient keys held",
 "Tests compare metadata for a dozen fixed vectors; they never enumerate layer stacks x algorithms x keys held, and several compare only against values produced by the same code.",
 ["src/message/unpack/mod.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs"],
 [("metadata accumulation", "_try_unpack_* functions write UnpackMetadata")],
 ["UnpackMetadata"])
prop("C03", "Encrypted envelopes are tamper-evident",
 "If any part of a packed encrypted message that carries meaning is altered in transit (protected header, recipient key ids, wrapped keys, IV, ciphertext, tag, or a part taken from another envelope), unpacking either fails or returns exactly the original message and the original metadata about sender and algorithms. No alteration ever makes different content, a different sender or a different algorithm come out.",
 ["inputs"],
 "every single-character edit, every truncation, every field swap between two envelopes and every recipient-list edit, of envelopes from all encryption modes and algorithms",
 "Tests try a few hand-made corruptions of stored vectors; the set of all one-step alterations of every field is never covered.",
 ["src/jwe/parse.rs", "src/jwe/decrypt.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/utils/crypto.rs"],
 [("apv binds recipient ids", "ParsedJWE::verify_didcomm"), ("AAD = protected header", "ParsedJWE::decrypt"), ("tag bound into 1PU key", "JoseKDF for Ecdh1PU")],
 ["unpack result"])
prop("C04", "Only an authorised signing key can make a signed message",
 "Unpacking reports a message as signed by a key only if its single signature verifies, under the algorithm it names, over exactly the returned content with that key, and that key is listed for authentication in the DID document of the DID it names. Every altered payload, header, signature, algorithm or key id, every signature by another key, and every envelope without exactly one signature is rejected.",
 ["inputs"],
 "every single-character edit, algorithm/key-id swap, signature transplant, key-purpose change and signature-list length for all three signature algorithms",
 "Tests verify stored vectors and a few corruptions; swapping algorithm, key id and DID-document purpose against each other is not covered.",
 ["src/jws/verify.rs", "src/jws/parse.rs", "src/message/unpack/sign.rs"],
 [("verification", "ParsedJWS::verify"), ("authentication purpose check", "_try_unpack_sign")],
 ["unpack result", "metadata.sign_from"])
prop("C05", "Only addressed recipients can read; protected senders stay hidden",
 "An encrypted message can be opened with each recipient key it reports as used, with nothing else than those keys, and without any of them unpacking fails for lack of a secret. The transported string never contains the content, and when the message is anonymous or sender protection is requested it never contains the sender's or signer's identifiers; every packing uses fresh content keys, ephemeral keys and IVs.",
 ["inputs", "configurations"],
 "all modes and algorithms x all subsets of recipient secrets x identifiers searched for in every decoding of the transported string",
 "Tests always hold all recipient secrets and never inspect what the envelope discloses or whether two packings share key material.",
 ["src/jwe/encrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/unpack/anoncrypt.rs"],
 [("sender protection", "authcrypt(): protect_sender branch"), ("fresh CEK/epk/iv", "jwe::encrypt")],
 ["packed string", "secrets resolver calls"])
prop("C06", "Encryption keys are negotiated exactly as documented",
 "Encryption uses only key-agreement keys of the recipient's DID document: all of one key type when a DID is given and only the named key when a key id is given; with a sender, the first of its key-agreement keys that it holds and that some recipient key matches decides the type, otherwise the first supported recipient key does. Whenever no such choice exists the operation fails with the documented error kind, and the returned metadata names exactly the keys that the envelope really uses.",
 ["inputs", "configurations"],
 "all small DID documents (ordered lists of up to three keys over all key types, unsupported and dangling ones) for both sides x all subsets of held secrets x DID/key-id addressing",
 "Tests use three fixed DID documents; the negotiation outcome depends on order, type mix and held secrets of both sides, a space only enumeration covers.",
 ["src/message/pack_encrypted/authcrypt.rs", "src/message/pack_encrypted/anoncrypt.rs"],
 [("negotiation", "authcrypt()/anoncrypt() filters")],
 ["PackEncryptedMetadata", "envelope recipients/skid", "ErrorKind"])
prop("C07", "Signing uses an authentication key of the named DID, and reports it",
 "Signing (of a message or of a DID-rotation token) uses only a key listed for authentication in the signer's DID document and held by the caller - the named key when a key id is given, otherwise the first held one - with the algorithm that belongs to that key's type, and reports that key id. A key listed only for key agreement is never used to sign, and impossible requests fail with the documented error kind.",
 ["inputs", "configurations"],
 "all small DID documents and secret sets x DID/key-id addressing for message signing and rotation-token signing",
 "Tests sign with three fixed keys; documents where purposes, order and held secrets disagree are not enumerated.",
 ["src/message/pack_signed.rs", "src/message/from_prior/pack.rs"],
 [("authentication filter", "pack_signed / FromPrior::pack")],
 ["PackSignedMetadata", "JWS header", "ErrorKind"])
prop("C08", "DID rotation tokens are honoured only from the prior DID's own key",
 "A rotation token (from_prior) is accepted, when unpacked directly or inside a message, only if its signature verifies under an authentication key of the very DID it names as issuer; what is returned is exactly what was signed, with the key id that signed it. Packing rejects tokens whose issuer and subject are not two different plain DIDs, whose key does not belong to the issuer, or whose subject is not the message's sender.",
 ["inputs"],
 "every single-character edit and header/claim swap of valid tokens, every (issuer, subject, signing key, message sender) combination over several parties",
 "Tests check stored tokens and a few invalid ones; in particular no test signs a token for somebody else's DID.",
 ["src/message/from_prior/pack.rs", "src/message/from_prior/unpack.rs", "src/message/pack_plaintext.rs", "src/message/unpack/plaintext.rs"],
 [("claims validation", "FromPrior::validate_pack"), ("token verification", "FromPrior::unpack")],
 ["FromPrior", "metadata.from_prior", "ErrorKind"])
prop("C09", "Forward onion: each mediator learns only its next hop and delivers intact",
 "For every routing configuration, the packed message is an onion that each routing key in order can open to find exactly the next hop (the following routing key, finally the addressee as given), the caller's extra headers and the inner envelope unchanged, so that peeling all layers yields an envelope the addressee unpacks to the original message. No hop can open a layer that is not its own, and nothing in a layer reveals content, sender or later hops.",
 ["inputs", "configurations"],
 "all routing key lists up to length three x DID/key-id hops x mediator-as-DID endpoints x encryption modes x extra headers, and every order of mediators attempting to open",
 "Tests have two or three fixed mediator chains; lengths, hop kinds and wrong-order opening are not enumerated.",
 ["src/protocols/routing/mod.rs", "src/protocols/routing/forward.rs"],
 [("onion construction", "wrap_in_forward"), ("forward parsing", "try_parse_forward")],
 ["packed string", "Forward messages"])
prop("C10", "Re-wrapped forwards are unwrapped exactly when they are ours",
 "Unpacking with forward unwrapping enabled opens every forward layer whose next hop is one of the caller's own key-agreement keys (or a DID having one), returns the innermost message and says that it was re-wrapped; a forward meant for somebody else, or any forward when unwrapping is disabled, is returned as the forward message itself. Unwrapping always terminates and never changes what the inner message yields.",
 ["inputs", "configurations"],
 "all stacks of up to three forward layers x next-hop kinds (own key, own DID, foreign, unknown, key id without secret) x option x inner layer stack x forward shapes",
 "Tests cover two fixed stacks; next-hop ownership, nesting depth and malformed forwards are not crossed.",
 ["src/message/unpack/mod.rs", "src/protocols/routing/mod.rs"],
 [("unwrap loop", "Message::unpack"), ("ownership test", "has_key_agreement_secret")],
 ["unpack result", "metadata.re_wrapped_in_forward"])
prop("C11", "Hostile input yields an error, never a panic or a hang",
 "No packed message, rotation token, DID document, secret, key material, routing-key list or option value, however malformed, makes any public operation panic or loop: each call returns a value or an error. Malformed input from the wire is reported with an error kind that says so (or that the crypto is unsupported), not as success.",
 ["inputs"],
 "all grammar-level mutations (type confusion of every JSON node, missing/duplicated/null members, truncations at every byte, boundary lengths of every base64/base58/multibase field, invalid curve points) of every input format",
 "Tests try fewer than a hundred hand-written bad inputs; 'never panics' quantifies over all inputs.",
 ["src/jwe/parse.rs", "src/jws/parse.rs", "src/utils/did.rs", "src/jwk.rs", "src/protocols/routing/mod.rs", "src/message/unpack/mod.rs", "src/error.rs"],
 [("error mapping", "ToResult / ResultExt in error.rs"), ("length checks", "utils::did as_key_pair")],
 ["return value of every public operation"])
prop("C12", "Resolver failures fail closed and are reported as what they are",
 "If the DID or secrets resolver fails, returns nothing, or contradicts itself at any call during packing or unpacking, the operation returns an error and no message, and an error raised by a resolver keeps its kind. When nothing fails, the outcome does not depend on how often or in which order lookups are answered.",
 ["fault_sequences"],
 "a failure of each kind at every resolver call index of every operation, singly and in pairs, plus not-found answers and inconsistent find/get answers",
 "Tests use resolvers that never fail except for three mock-based cases; the index of the failing call is never enumerated.",
 ["src/message/pack_encrypted/authcrypt.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs", "src/protocols/routing/mod.rs", "src/did/did_resolver.rs", "src/secrets/mod.rs"],
 [("error propagation", "ResultContext::context keeps kind")],
 ["ErrorKind", "result"])
prop("C13", "Concurrent and cancelled operations do not influence each other",
 "However the resolver answers of several pack and unpack operations running at the same time are delayed and interleaved, each operation gives the result it gives when run alone, and dropping an unfinished operation at any suspension point leaves the others and later operations unaffected. The inputs of an operation are never modified.",
 ["schedules"],
 "all interleavings of the suspension points of two and three concurrent operations sharing resolvers, and cancellation at each suspension point",
 "Tests await one operation at a time with resolvers that never suspend.",
 ["src/message/pack_encrypted/mod.rs", "src/message/unpack/mod.rs"],
 [("no shared mutable state across await", "all async operations")],
 ["results under every schedule"])
prop("C14", "Message JSON is the DIDComm plaintext format, losslessly",
 "Every message and attachment, whichever optional fields are present, serialises to JSON with exactly the DIDComm header names and value types and no member for absent fields, and parsing that JSON gives back an equal value; unknown members are kept as extra headers. JSON lacking a required member, with a wrongly typed member, or with another media type is rejected, a missing media type is accepted, and builder calls set exactly the field they name (repeated list setters append).",
 ["inputs", "programs"],
 "all presence subsets of the message and attachment fields x value alphabet, all one-step removals/retypings of members, all builder call sequences up to a bound",
 "Tests serialise two or three fully populated messages and one minimal one.",
 ["src/message/message.rs", "src/message/attachment.rs", "src/message/from_prior/mod.rs"],
 [("serde mapping", "Message, Attachment, FromPrior derive"), ("media type check", "Message::validate")],
 ["JSON text", "parsed Message"])
prop("C15", "All encodings of one key behave identically",
 "A public or private key given as JWK, Base58 or Multibase under its matching method type denotes the same key: messages made with one encoding are read and verified with any other, whichever side uses which. A method type that does not match its material is treated as unsupported rather than as another key, and malformed material is an error.",
 ["inputs", "configurations"],
 "all pairs of encodings on both sides for key agreement and signing with several keys each, all method-type x material mismatches",
 "Test vectors use mostly JWK keys; the encodings are tested one at a time, never against each other end to end.",
 ["src/utils/did.rs", "src/jwk.rs", "src/utils/crypto.rs"],
 [("material decoding", "AsKnownKeyPair for VerificationMethod / Secret")],
 ["pack/unpack results", "ErrorKind"])
prop("C16", "Produced envelopes conform to the DIDComm v2 wire format",
 "Every envelope the library produces can be opened and verified by an independent implementation of the DIDComm v2 envelope rules: media types, algorithm names, recipient-list hash, sender id in the header, ephemeral key on the recipients' curve, unpadded base64url everywhere, protected header as authenticated data, key derivation bound to the content tag, and signature over header and payload exactly as sent.",
 ["inputs", "configurations"],
 "all modes, algorithms, curves, recipient counts and payload lengths around block boundaries",
 "Tests read back the library's own output; a symmetric mistake in producing and reading is invisible to them.",
 ["src/jwe/encrypt.rs", "src/jwe/envelope.rs", "src/jws/sign.rs", "src/jws/envelope.rs", "src/utils/crypto.rs"],
 [("protected header", "jwe::encrypt"), ("signing input", "jws::sign / sign_compact")],
 ["packed string"])
prop("C17", "Conforming envelopes from other implementations are read correctly",
 "Every conforming DIDComm v2 envelope made by another implementation is unpacked to the content and metadata it carries, regardless of member order, white space, unknown members, optional header members left out (media type, sender key id when it is in the party info) and recipient order.",
 ["inputs", "configurations"],
 "reference-packed envelopes of all modes/algorithms/curves x all permitted serialisation variations",
 "Stored vectors fix one serialisation; permitted variations are hardly covered.",
 ["src/jwe/parse.rs", "src/jwe/envelope.rs", "src/jws/parse.rs", "src/jws/envelope.rs", "src/message/unpack/mod.rs"],
 [("tolerant parsing", "JWE/JWS serde types")],
 ["unpack result"])
prop("C18", "Packing rejects contradictory or invalid addressing before doing anything",
 "Packing refuses, as an illegal argument, a recipient, sender or signer that is not a DID or DID URL, a recipient whose DID is not among the message's addressees when it has some, and a sender whose DID differs from the message's sender when it has one; it accepts every other combination. A refused call performs no lookup and returns no envelope.",
 ["inputs"],
 "all combinations of to/from/sign_by strings (valid and invalid DIDs and URLs) with message to/from contents",
 "Tests have about ten fixed combinations.",
 ["src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/utils/did.rs"],
 [("validation", "_validate_pack_encrypted, _validate_pack_signed, is_did, did_or_url")],
 ["ErrorKind", "resolver call log"])
prop("C19", "Foreign-language callback API agrees with the native one",
 "Through the callback interface every operation calls its result callback exactly once, with the same value or error kind the native operation gives, no matter when or on which thread resolver callbacks answer; an error a resolver callback reports keeps its kind. A resolver callback answered twice is refused the second time and never corrupts a result.",
 ["schedules", "fault_sequences"],
 "all orders and timings (immediate, later, never-dropped, twice) of callback answers, for every exported operation, with each error kind at each call",
 "The wrapper's tests call each function once with resolvers answering immediately.",
 ["uniffi/src/common.rs", "uniffi/src/did/did_resolver_adapter.rs", "uniffi/src/secrets/secrets_resolver_adapter.rs", "uniffi/src/didcomm/mod.rs"],
 [("one-shot bridge", "OnResult / OnResultReceiver"), ("adapters", "DIDResolverAdapter, SecretsResolverAdapter")],
 ["callback invocations"])
prop("C20", "DID documents and secrets keep their meaning through JSON",
 "DID documents and secrets parse from the DID-core member names and serialise back to JSON that parses to the same document, whatever the number and kinds of verification methods and services, with optional service members defaulting to absent or empty. The bundled in-memory resolvers return exactly the document or secret stored under the exact identifier asked for, find exactly the requested secrets that exist in the requested order, and return nothing otherwise.",
 ["inputs"],
 "all small documents over method types x material kinds x service kinds x optional members, all query lists over stored and near-miss identifiers",
 "One test parses one minimal service.",
 ["src/did/did_doc.rs", "src/secrets/mod.rs", "src/did/resolvers/example.rs", "src/secrets/resolvers/example.rs"],
 [("serde mapping", "did_doc.rs, secrets/mod.rs"), ("lookup", "Example*Resolver")],
 ["JSON", "resolver answers"])
prop("C21", "The right messaging service is chosen and reported",
 "When forwarding is enabled, packing wraps exactly if the recipient's chosen messaging service (the one requested, otherwise the first that accepts DIDComm v2) or the mediator its endpoint names requires routing; it reports that service's id and the transport endpoint to send to, and uses mediator and routing keys in the prescribed order. A requested service that is missing, of another type or not accepting DIDComm v2, and mediator endpoints that are recursive or have no service, are errors; with forwarding disabled no service is consulted.",
 ["inputs", "configurations"],
 "all small service lists (kinds, accept lists, endpoints as URL/DID, routing keys) for recipient and mediators x requested service id x forward option",
 "Tests use three fixed service layouts.",
 ["src/protocols/routing/mod.rs"],
 [("service choice", "find_did_comm_service"), ("mediator chain", "resolve_did_comm_services_chain")],
 ["PackEncryptedMetadata.messaging_service", "onion structure", "ErrorKind"])
prop("C22", "An active network attacker cannot forge authenticity claims",
 "Whatever messages an attacker who controls the network, has its own DID and keys, and sees honest traffic composes out of the pieces it can obtain, no honest party's unpack ever reports a sender key, signer key or rotation issuer of an honest party for content that party did not send with that protection, and the attacker never learns protected content.",
 ["histories"],
 "all attacker derivations up to a bounded number of composition steps over the traffic of honest sessions, each concretised and given to the real unpack",
 "Tests contain no adversary at all.",
 ["src/message/unpack/mod.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs", "src/message/from_prior/unpack.rs", "src/jwe/decrypt.rs"],
 [("authcrypt binding", "ECDH-1PU with apu/apv/tag"), ("signature checks", "_try_unpack_sign"), ("rotation token check", "FromPrior::unpack")],
 ["unpack results of honest parties"])
prop("C23", "Self-inconsistent encrypted envelopes are rejected by every recipient",
 "Even when its sender encrypted it correctly, an encrypted message whose recipient-list hash does not match its recipients, whose sender id and party info disagree, that claims authentication without a sender, whose recipient keys belong to different DIDs or are not key ids, or whose sender key is not a key-agreement key of the named DID, is rejected as malformed or unknown key, and an unknown algorithm is rejected rather than guessed.",
 ["inputs"],
 "every header inconsistency produced by a reference packer with correct cryptography, for both key types and all algorithms",
 "Tests check a few stored inconsistent vectors at parser level only; end-to-end consistency with otherwise valid cryptography is not covered.",
 ["src/jwe/parse.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs"],
 [("consistency checks", "ParsedJWE::verify_didcomm"), ("recipient checks", "_try_unpack_anoncrypt / _try_unpack_authcrypt")],
 ["ErrorKind"])

prop("C24", "Options, algorithm names, results and errors survive the JSON boundary",
 "Packing and unpacking options given as JSON mean exactly the members present plus the documented defaults for those left out, and values of a wrong type or an unknown algorithm name are refused; rotation claims and algorithm names read back as written; every field set in the metadata of packing, signing, unpacking and in a parsed forward is serialised under its own name; and an error keeps its kind through every way it is made, given context, displayed and serialised, with malformed JSON always reported as malformed.",
 ["inputs"],
 "all combinations of option members, all subsets of metadata fields, all error kinds and wrappings, all single damages of small JSON documents",
 "Foreign-language callers reach the library only through these serialised forms, and no test serialises them.",
 ["src/message/pack_encrypted/mod.rs", "src/message/unpack/mod.rs", "src/message/from_prior/mod.rs", "src/algorithms.rs", "src/error.rs", "src/utils/serde.rs"],
 [("serde mapping", "options and metadata types"), ("error mapping", "error.rs: ResultExt, ToResult, From impls")],
 ["serialised values", "ErrorKind"])

prop("C25", "Several recipient keys: any held key opens, or every held key must",
 "A message encrypted for several keys of one DID unpacks to the same content and the same reported facts for every set of those keys the receiver holds. Asked to expect decryption by all keys, unpacking succeeds exactly when every held key decrypts every encrypted layer, also inside a re-wrapped forward; not asked, it never fails when every held key decrypts. No message is returned that no held key decrypts, and holding none of the keys is reported as a missing secret.",
 ["inputs", "configurations"],
 "all held subsets of up to three (four) recipient keys x all assignments of damage to entries and secrets x layer kinds x algorithms x option",
 "One vector is unpacked with the option on; no test damages an entry other than the first or holds part of the keys with the option on.",
 ["src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/jwe/decrypt.rs"],
 [("trial over held keys", "loop over find_secrets in _try_unpack_anoncrypt / _try_unpack_authcrypt"), ("entry selection", "ParsedJWE::decrypt")],
 ["unpack result", "ErrorKind"])

prop("C26", "Content an operation has no business with never changes its result",
 "Verification methods that no list of the document names, their order and repetition, methods that carry another DID's or a similar id, controllers, authentication keys nobody holds, services that are not DIDComm v2 services or come after the chosen one, secrets under other ids, the order of secrets, and documents of other DIDs do not change what any packing, unpacking, token or wrapping operation returns, nor the kind of error with which it fails.",
 ["inputs", "configurations"],
 "all single and paired (three at a time) changes of 22 kinds to each document, to the wallet and to the resolver x every kind of operation",
 "Tests use fixed documents; a lookup that is too loose or reads too much needs exactly such a document to show.",
 ["src/did/did_doc.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_signed.rs", "src/message/unpack/sign.rs", "src/protocols/routing/mod.rs", "src/message/from_prior/unpack.rs"],
 [("key lookups", "verification_method / key_agreement / authentication searches"), ("service choice", "find_did_comm_service")],
 ["operation results", "ErrorKind"])

prop("C27", "Key material never leaves the library",
 "No text the library returns - message, metadata, rotation token, or error in any rendering with its sources - and no question it asks a resolver contains, directly or after decoding, any part of a private key, of a content key or of an ephemeral private key, whether the operation succeeds, a resolver fails, or a secret is malformed in any way.",
 ["inputs", "fault_sequences"],
 "every operation x every resolver fault; every way of spoiling a secret of every type and encoding x every use of it",
 "Tests never look at what else an output or an error contains.",
 ["src/utils/did.rs", "src/jwk.rs", "src/jwe/encrypt.rs", "src/jws/sign.rs", "src/error.rs"],
 [("key parsing errors", "AsKnownKeyPairSecret"), ("public key export", "ToJwkValue")],
 ["returned texts", "error renderings", "resolver call log"])

prop("C28", "Operations act on current documents and secrets, whatever ran before",
 "The result of an operation depends only on its arguments and on what the resolvers answer during it: after any history of other operations, with the same identifiers bound to other keys, lists, services or secrets in between (key rotation, withdrawal, loss, moved services, deactivation), it equals the result of the same operation in a fresh process.",
 ["histories"],
 "all sequences of two (three) operations out of 36, each at any of seven moments of a changing world",
 "Tests run each operation once, on one unchanging world.",
 ["src/message/unpack/mod.rs", "src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/message/from_prior/mod.rs", "src/protocols/routing/mod.rs", "src/utils/did.rs"],
 [("no retained state", "all operations take resolvers by reference")],
 ["operation results"])

prop("C29", "The JavaScript interface agrees with the native one",
 "Every operation called through the JavaScript wrapper gives the result, metadata, error name and resolver questions of the native operation on the same values: whatever form a resolver method answers in (value, promise, thrown), whatever error it throws (a named DIDComm error keeps its name, anything else is an invalid state), in whatever order promises settle and other operations run. Wrong arguments are refused as malformed, every returned promise settles, and the published TypeScript declarations name what is read and returned.",
 ["schedules", "inputs", "fault_sequences"],
 "all answer forms, deviations, job-queue schedules within a delay bound, option combinations and small argument values",
 "The wrapper's tests need a browser and the real package; they answer every resolver call at once with good values.",
 ["wasm/src/lib.rs", "wasm/src/error.rs", "wasm/src/did/did_resolver.rs", "wasm/src/secrets/secrets_resolver.rs", "wasm/src/message/pack_encrypted.rs", "wasm/src/message/unpack.rs", "wasm/src/message/protocols/routing/mod.rs", "src/did/did_doc.rs"],
 [("resolver adapters", "JsDIDResolver / JsSecretsResolver"), ("error names", "JsResult / FromJsResult in wasm/src/error.rs"), ("declarations", "typescript_custom_section constants")],
 ["promise results", "error names", "resolver calls", "declarations"])

prop("C30", "Every random value is used once",
 "Every encrypted layer the library makes has a content key, an iv, an ephemeral key and wrapped keys of its own, drawn from the secure random source during that operation, and every forward it makes an id of its own: none of them ever appears again, whole or in part, in another layer, another message or another role, in any history of operations, also after operations that failed or were dropped half way and with operations running at the same time.",
 ["histories", "schedules"],
 "all sequences of two (three) operations, each whole, failing at any resolver call or dropped at any point, and all schedules of two with bounded switches",
 "Tests decrypt single messages with fixed keys; a repeated nonce or ephemeral key decrypts perfectly well.",
 ["src/jwe/encrypt.rs", "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/protocols/routing/mod.rs"],
 [("fresh keys", "jwe::encrypt"), ("forward ids", "generate_message_id")],
 ["packed messages, opened"])

prop("C31", "Resolvers are asked only about the parties of the operation",
 "The DID resolver is asked for plain DIDs of the recipient, sender, signer, rotation issuer, route and, when unpacking, of the sender, signer, token key and forward target of layers the receiver can open and has verified; the secrets resolver only for key ids of the acting party's own lists when packing and for ids of the opened layer or of the forward target when unpacking. DIDs that a message merely mentions, services that do not apply and secrets of others are never asked for, whatever fails.",
 ["inputs", "fault_sequences"],
 "all packing modes and delivery environments, all layer stacks up to depth 3 (4) for holders of all, some and no keys, all options, all single and double resolver failures, on messages that mention other DIDs everywhere",
 "The tests' resolvers answer anything and record nothing; a needless lookup discloses whom one talks to.",
 ["src/message/unpack/mod.rs", "src/message/unpack/anoncrypt.rs", "src/message/unpack/authcrypt.rs", "src/message/unpack/sign.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/pack_signed.rs", "src/message/from_prior/unpack.rs", "src/protocols/routing/mod.rs"],
 [("lookups", "calls of DIDResolver / SecretsResolver")],
 ["resolver call log"])

prop("C32", "A routed message reaches its addressee through library-run mediators",
 "A message packed with forwarding, sent to the endpoint the metadata names and handed on by mediators that unpack it and pass on what the parsed forward contains - as it is, or wrapped again for the next node any number of times, each node unwrapping or not - passes exactly the nodes of the recipient's route in their order and arrives once at the addressee with the content and the protections of a message handed over directly, whatever is delivered twice; any other node refuses it as not having the secret.",
 ["histories", "configurations"],
 "all routes up to two (three) routing keys over three mediators, endpoints, addressing, protections, and every assignment of re-wrapping habits to the nodes",
 "One test walks one three-mediator route without re-wrapping.",
 ["src/protocols/routing/mod.rs", "src/protocols/routing/forward.rs", "src/message/unpack/mod.rs", "src/message/pack_encrypted/mod.rs"],
 [("onion", "wrap_in_forward"), ("relay", "try_parse_forward"), ("re-wrapped", "unwrapping loop of Message::unpack")],
 ["messages in flight", "unpack results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
