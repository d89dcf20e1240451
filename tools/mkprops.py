#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SM2, SM3, X, P7, P12 = "sm2/sm2.go", "sm3/sm3.go", "x509/x509.go", "x509/pkcs7.go", "pkcs12/pkcs12.go"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append((id, title, statement, over, text, why, files, mech, technique, note))

I, H, F, S, C, R = "inputs", "histories", "fault_sequences", "schedules", "configurations", "crash_points"

prop("C01", "SM3 digests are the standard's",
 "For every message, the digest returned by the one-shot function and by a hash object equals the SM3 digest of GB/T 32905-2016. This includes messages whose bit length needs more than 32 bits.",
 [I], "all messages; enumerated: every length 0..1024 x byte patterns, every two-byte message, every single-bit message around block ends, lengths beyond 2^29 and 2^32 bytes (thorough)",
 "Two fixed messages are hashed by the tests; padding and length encoding depend on the length modulo 64 and on 64-bit carries no sample reaches.",
 [SM3], [("one-shot digest", "sm3/sm3.go Sum"), ("padding and length", "sm3/sm3.go checkSum"), ("compression", "sm3/sm3.go update")],
 "explicit-state enumeration of inputs on the real code against an independent SM3 model",
 "Every length and pattern in the bound is hashed by the real code and by a reference written from the standard (self-tested on the standard's vectors).")
prop("C02", "A hash object's digest depends only on the bytes written since reset",
 "For every sequence of writes, digest queries and resets, a digest query returns the prefix given to it followed by the SM3 digest of exactly the bytes written since the last reset, and changes nothing. Objects do not influence each other.",
 [H], "all operation sequences on one or two objects; enumerated to a depth, over lengths around the block size, all splits of messages up to several blocks",
 "Tests write once and ask once; faults show only for particular splits around block boundaries, or after a query in mid-stream.",
 [SM3], [("buffering", "sm3/sm3.go Write"), ("non-destructive query", "sm3/sm3.go Sum"), ("reset", "sm3/sm3.go Reset")],
 "stateless model checking: all operation sequences up to a depth on the real object against a list-of-bytes model",
 "Each operation sequence in the bound is executed on the real object; model traces and implementation traces are the same traces.")
prop("C03", "Signatures made with a key verify under its public key",
 "Whatever message, user identifier (empty meaning the default one), key and random source, a signature made through any signing form verifies through every verification form of the matching kind and under the standard's verification equation. It is over the digest that the standard prescribes for message, identifier and public key.",
 [I, C], "all keys, messages, identifiers, random streams and API forms; enumerated over boundary keys x message/identifier lengths x forms",
 "The round-trip test uses one key and one message; keys with short coordinates or at the ends of the range, empty and long identifiers and mixed forms are not sampled.",
 [SM2], [("signing forms", "sm2/sm2.go Sign, SignRS, SignDigest, SignDigestRS and methods"), ("user digest", "sm2/sm2.go SM3Digest, z")],
 "exhaustive enumeration of bounded inputs and API forms on the real code against a reference model of the standard",
 "Boundary keys (1, n-2, short coordinates), all lengths in the bound; oracle is independent SM2 arithmetic.")
prop("C04", "Signatures are the standard's function of key, digest and nonce",
 "A signature (r, s) always satisfies the standard's signing equation for some nonce in [1, n-1], and with that nonce the values are exactly the standard's. Degenerate values (r = 0, r + k = n, s = 0) are never returned: another nonce is drawn.",
 [I, F], "all keys, digests and nonces, including those that make r or s degenerate; enumerated over boundary nonces and constructed degenerate cases",
 "Degenerate nonces occur with probability 2^-256; they have to be constructed, and no test controls the nonce.",
 [SM2], [("signing equation and retry", "sm2/sm2.go SignDigestRS"), ("nonce derivation", "sm2/sm2.go nextk")],
 "exhaustive enumeration of constructed nonce sequences on the real code against the standard's equations",
 "The nonce is recovered from each signature and the equation checked; degenerate nonces are constructed algebraically and fed as sequences.")
prop("C05", "Verification accepts exactly the valid signatures",
 "A verification form accepts if and only if the encoding is the unique DER encoding of two integers in [1, n-1] that satisfy the standard's verification equation for the message, identifier and key. No other input is accepted, and none makes it fail otherwise.",
 [I], "all keys, digests, integer pairs and encodings; enumerated: integer classes squared, all single-bit changes, DER variants, constructed points with special coordinates",
 "Tests check one valid signature; rejection of out-of-range values, alternative encodings and special intermediate points is universal over inputs.",
 [SM2], [("range checks and equation", "sm2/sm2.go VerifyDigestRS"), ("decoding", "sm2/sm2.go UnmarshalSign")],
 "exhaustive enumeration of integer classes and encoding mutations on the real code, decided against a reference verifier",
 "Both directions (accept and reject) compared with the independent verifier on every enumerated input.")
prop("C06", "Decryption returns what was encrypted, in the standard's format",
 "For every key pair, message and random source, decrypting an encrypted message returns that message. The ciphertext is the standard's C1 C3 C2 layout with a valid curve point, the right digest and key stream, so that any conforming implementation decrypts it, and ciphertexts made by one are decrypted.",
 [I, C], "all keys, message lengths and nonces; enumerated over boundary keys, every length up to several key-stream blocks, nonces giving short coordinates",
 "One message length and key are tested; the key-stream and coordinate encodings depend on length and on rare leading zeros.",
 [SM2], [("encryption", "sm2/sm2.go Encryt"), ("decryption", "sm2/sm2.go Decryt"), ("key derivation", "sm2/sm2.go kdf")],
 "exhaustive enumeration of keys, lengths and constructed nonces on the real code against a reference implementation",
 "Each direction is crossed with the reference implementation.")
prop("C07", "Altered or malformed ciphertexts are refused",
 "Decrypting anything that is not a ciphertext of the given key, including every changed, shortened, extended or structurally invalid one and one whose point is not on the curve, returns an error and no plaintext. It never fails in any other way.",
 [I], "all byte strings as ciphertexts; enumerated: every bit flip, truncation, extension, point substitution and all short inputs",
 "No test alters a ciphertext; the guarantee is universal over byte strings.",
 [SM2], [("input checks and digest comparison", "sm2/sm2.go Decryt")],
 "exhaustive enumeration of mutations on the real code against a reference decryptor",
 "Acceptance is compared with the reference on every mutation.")
prop("C08", "The random source is used completely and its failures are reported",
 "Key generation, signing and encryption return an error and no result whenever the random source fails at any point, whatever was delivered before. The result depends only on the bytes delivered, not on how they were chunked, and secrets differ between calls.",
 [F, H], "all failure points and chunkings of the random source, all sequences of calls on one source; enumerated at every byte and every chunk size",
 "Tests use the system's source, which neither fails nor delivers in parts.",
 [SM2], [("nonce reading", "sm2/sm2.go nextk"), ("key generation", "sm2/sm2.go GenerateKey")],
 "fault enumeration: every failure point and delivery pattern of the random source, executed on the real code",
 "The fault injector is the random source; every byte position is failed.")
prop("C09", "Key encodings read back as the same key, in the standard forms",
 "Every private or public key of a supported type encodes to the standard structure for its type and reads back as an equal key, and standard encodings made elsewhere, in all their variants, read back as the key they contain. Fixed-width fields keep their width for every key.",
 [I, C], "all keys of all supported types and all encoding variants; enumerated over boundary keys and variants",
 "Tests encode a few keys; width errors appear only for keys with leading zero bytes (1 in 256).",
 [X, "x509/pkcs8.go", "x509/sec1.go", "x509/pkcs1.go"], [("private key encoding", "x509/pkcs8.go, x509/sec1.go, x509/pkcs1.go"), ("public key encoding", "x509/x509.go MarshalPKIXPublicKey, x509/parser.go parsePublicKey")],
 "exhaustive enumeration of keys and encoding variants on the real code against an independent encoder and the standard library",
 "Both directions; the oracle is a hand-written DER encoder and crypto/x509.")
prop("C10", "Invalid keys are refused when read",
 "Reading a private or public key never returns a key that is out of range, not on its curve, inconsistent or of another type than declared: such encodings give an error. Nothing but a well-formed encoding is accepted.",
 [I], "all byte strings offered as keys; enumerated: scalar classes, off-curve points, every bit flip, structural mutations of every key form",
 "Tests parse valid keys only.",
 [X, "x509/pkcs8.go", "x509/sec1.go", "x509/pkcs1.go", "x509/parser.go"], [("range and curve checks", "x509/sec1.go parseECPrivateKey, x509/parser.go parsePublicKey")],
 "exhaustive enumeration of invalid encodings on the real code against an independent validity oracle",
 "Whatever is accepted must be a valid key according to the oracle.")
prop("C11", "A created certificate says what its template says, signed by its issuer",
 "A certificate created from a template, parent, subject key and signer parses back with every field of the template, the parent's name and the subject key, and carries a signature that the signer's public key verifies, in DER that other implementations read the same way. If the signer or the random source fails, or the arguments do not fit, there is an error and no certificate.",
 [I, C, F], "all templates, key types and signer behaviours; enumerated: every field deviation and pair of deviations x key types x signer faults",
 "Tests create a few fixed templates; field interactions and failing signers are not sampled.",
 [X, "x509/parser.go"], [("creation", "x509/x509.go CreateCertificate, buildExtensions"), ("parsing", "x509/parser.go parseCertificate")],
 "exhaustive enumeration of template deviations (up to pairs), key types and signer faults on the real code; oracle: independent DER reader and crypto/x509",
 "All single deviations and pairs in quick, triples in thorough.")
prop("C12", "A certificate is accepted from a parent only if that parent signed it and may",
 "The parent check accepts exactly when the child's signature over its exact signed bytes verifies under the parent's key and the parent's version, basic constraints and key usage allow it to sign certificates. Any change of a bit in the child, or another parent key, makes it fail.",
 [I, C], "all parent/child pairs; enumerated: constraint and usage combinations, every bit flip, signature and key exchanges",
 "Tests check one valid chain; refusal is universal over alterations.",
 [X], [("parent check", "x509/x509.go CheckSignatureFrom"), ("signature check", "x509/x509.go CheckSignature, checkSignature")],
 "exhaustive enumeration of constraint combinations and single-bit mutations on the real code against a rule oracle",
 "All 512 key usages x constraints x versions x key types; every bit of whole certificates.")
prop("C13", "Certificate requests prove possession of their key",
 "A request created from a template parses back with the template's contents and verifies under the key it carries, in a form other implementations read the same way. A request whose bytes, key or signature were changed does not verify.",
 [I, C], "all templates, keys and alterations; enumerated: template deviations in pairs x key types, every bit flip, key exchanges",
 "A single request is tested.",
 [X], [("creation", "x509/x509.go CreateCertificateRequest"), ("check", "x509/x509.go CertificateRequest.CheckSignature")],
 "exhaustive enumeration of template deviations and mutations on the real code; oracle: independent reader and crypto/x509",
 "Both acceptance and rejection are enumerated.")
prop("C14", "Revocation lists are faithful and bound to their issuer",
 "A created revocation list contains exactly the given entries, number, times and the issuer's name and identifier, and verifies under the issuer's key only. A changed list, or another issuer, is refused, and arguments that cannot give a valid list give an error.",
 [I, C], "all entry lists, issuers, key types and alterations; enumerated with both creation functions",
 "No stable test creates a revocation list.",
 [X], [("creation", "x509/x509.go CreateCRL, CreateRevocationList"), ("check", "x509/x509.go CheckCRLSignature")],
 "exhaustive enumeration of list contents, key types and mutations on the real code; oracle: independent reader and crypto/x509",
 "Every field deviation, every bit flip of lists of four key types.")
prop("C15", "Signature algorithms are bound to key types and never insecure",
 "A signature is accepted only under an algorithm that belongs to the type of the key, is not one of the insecure ones, and has exactly the standard identifier and parameters; parsing names an algorithm only for its exact identifier. Signing never produces a signature under another algorithm than the one recorded.",
 [C, I], "all combinations of key type, signature kind, algorithm identifier and parameters; enumerated completely for the supported ones",
 "Tests use matching combinations only.",
 [X], [("algorithm table", "x509/x509.go signatureAlgorithmDetails"), ("verification dispatch", "x509/x509.go checkSignature"), ("signing choice", "x509/x509.go signingParamsForPublicKey")],
 "exhaustive enumeration of the algorithm/key/parameter matrix on the real code against a table oracle",
 "Complete matrix of key types x algorithms x signature kinds; parameter mutations.")
prop("C16", "Signed messages carry and authenticate their content",
 "A signed message made with a key or a callback parses back to the same content and certificate, verifies, and is a valid message for an independent reader. If the random source or the callback fails, or the key does not fit, there is an error (the callback's own) and no message, and valid messages made elsewhere are read and verified.",
 [I, F, C], "all contents, keys, certificates, signing forms and failures; enumerated over lengths, keys, every failure point and foreign message forms",
 "Tests sign one message; errors of the signer and other lengths are not sampled.",
 [P7], [("creation", "x509/pkcs7.go NewSignedData, NewSignedDataCallBack"), ("reading", "x509/pkcs7.go ParsePKCS7, Verify")],
 "exhaustive enumeration of contents, keys and fault points on the real code against an independent message reader",
 "Every failure point of the random source; contents of every length in the bound.")
prop("C17", "Altered signed messages do not verify",
 "A message verifies only if every signer's signature and digest match the content that is returned and the certificate that is found for that signer. Any change to content, attributes, signature, digest or signer association either fails or leaves what is authenticated unchanged, and what is not a well-formed signed message is not read as one.",
 [I], "all alterations of messages; enumerated: every bit flip, attribute-set manipulation, signer/certificate exchange, mixtures of two and three signers",
 "No test alters a message.",
 [P7], [("verification", "x509/pkcs7.go verifySignature, Verify"), ("signer lookup", "x509/pkcs7.go getCertFromCertsByIssuerAndSerial")],
 "exhaustive enumeration of alterations on the real code; accepted messages must have the authenticated view unchanged",
 "Every bit of messages with one to three signers; attribute manipulations signed and unsigned.")
prop("C18", "A key store gives back the key and certificates put into it",
 "What is encoded under a password decodes under that password to the same private key and certificates through every decoding form that supports them, and standard files made elsewhere decode to their contents. Salts are fresh for each file, and inputs that cannot be stored or read give an error and no result.",
 [I, C, H], "all keys, certificates, passwords and file layouts; enumerated over key types, password classes, bag layouts and attribute sets",
 "No stable test covers key stores at all.",
 [P12, "pkcs12/safebags.go"], [("encoding", "pkcs12/pkcs12.go Encode"), ("decoding", "pkcs12/pkcs12.go DecodeAll, Decode, ToPEM")],
 "exhaustive enumeration of contents, passwords and layouts on the real code against an independent PKCS #12 reader and writer",
 "Both directions cross-checked with the reference.")
prop("C19", "A key store opens only with its password and only unaltered",
 "Every decoding form refuses a file under any password other than its own, and any file whose contents were altered, with an error and without a key or certificate.",
 [I], "all wrong passwords and alterations; enumerated: password variants, every bit flip, truncations, structural changes with and without a valid authentication code",
 "No test alters a file or tries another password.",
 [P12, "pkcs12/mac.go", "pkcs12/crypto.go"], [("authentication", "pkcs12/mac.go verifyMac"), ("decryption", "pkcs12/crypto.go pbDecrypt")],
 "exhaustive enumeration of wrong passwords and mutations on the real code",
 "Every bit of files of three layouts; accepted results must be the original contents.")
prop("C20", "Key-store cryptography is the standard's",
 "The password-based key derivation, the RC2 cipher with every effective key length, padding and authentication codes equal those of RFC 7292 and RFC 2268 for every input. Malformed padding is refused.",
 [I], "all passwords, salts, iteration counts, keys and blocks; enumerated over lengths, effective key sizes, and constructed carry cases",
 "No test covers them; carries and short values in the derivation occur for rare inputs only.",
 ["pkcs12/pbkdf.go", "pkcs12/rc2.go", "pkcs12/crypto.go", "pkcs12/mac.go", "pkcs12/bmp-string.go"], [("derivation", "pkcs12/pbkdf.go pbkdf"), ("RC2", "pkcs12/rc2.go New, Encrypt, Decrypt")],
 "exhaustive enumeration of parameters on the real code against independent RFC implementations",
 "Every effective key length 1..1024, carry cases constructed by search.")
prop("C21", "Key-store files survive or fail loudly",
 "Storing an SM2 key in a file either leaves a file from which the same key and certificate can be read with the same password or returns an error. Reading a partial, torn or foreign file gives an error or the right key, never another one, and a failing store leaves no success report.",
 [R, F, H], "all file-system failures, crash points and earlier contents; enumerated: failure after every byte, the file cut or torn at every byte, all listed path errors",
 "Tests do not touch files; crash and full-disk points are not reachable by a passing run.",
 [P12], [("writing", "pkcs12/pkcs12.go SM2P12Encrypt"), ("reading", "pkcs12/pkcs12.go SM2P12Decrypt")],
 "crash-point and fault enumeration on the real code (file size limit at every byte, every torn prefix)",
 "Faults are injected with RLIMIT_FSIZE, /dev/full and prepared files.")
prop("C22", "Operations on shared keys and certificates may run concurrently",
 "Any two operations of the library may run at the same time on the same keys, certificates and input buffers: each gives the result it gives alone, no data race occurs, no thread blocks another for ever, and shared arguments stay unchanged.",
 [S], "all schedules of two operations; enumerated: every ordered pair, every statement as preemption point, two switches at statements that touch package state, plus a happens-before check of every pair",
 "Tests are sequential; a race or a torn lazy initialisation appears in few schedules.",
 [SM2, SM3, X, P7, P12], [("package state", "package-level variables of sm2, sm3, x509, pkcs12"), ("shared keys and certificates", "arguments passed by pointer")],
 "systematic schedule exploration (bounded preemptions) of the instrumented real code, with a happens-before monitor on every pair of operations",
 "Instrumentation is generated from the working tree at check time; package state is re-initialised before every schedule.")
prop("C23", "Parsers never fail other than by an error",
 "Every function that reads external data returns, for every byte string, either a result that can be used without failure or an error and no result. It does not panic, hang, print anything or change its input.",
 [I], "all byte strings to every parser; enumerated: all short inputs, byte changes and truncations of seed encodings, structural tree mutations, also inside encrypted and signed parts",
 "Tests parse valid inputs.",
 [X, "x509/parser.go", P7, P12, SM2, "x509/pkcs8.go", "x509/sec1.go"], [("parsers", "Parse*, Decode*, ToPEM, Decryt, UnmarshalSign")],
 "exhaustive enumeration of small inputs and bounded mutations on the real code",
 "21 entry points; results are used (verified, re-encoded, compared) to catch latent failures.")
prop("C24", "Results depend only on the arguments, never on what was done before",
 "Each operation gives the same result whatever operations preceded it in the process, whatever happened to earlier results, whether objects are new or overwritten with new contents, and whatever the local time zone of the process is. Arguments, and the memory behind them, are never changed.",
 [H], "all sequences of operations in a process; enumerated: all ordered pairs (thorough: triples) in fresh processes, long rounds, object reuse and aliasing combinations",
 "Each test runs one operation on fresh data; stale caches and shared buffers need a particular sequence.",
 [SM2, SM3, X, P7, P12], [("package state", "package-level variables"), ("returned slices and integers", "results of all functions")],
 "stateless model checking of operation sequences in fresh processes on the real code, compared with each operation alone",
 "45 operations; results are overwritten between calls; sentinels stand behind every input buffer.")
prop("C25", "Hash identifiers name the right functions",
 "Each hash identifier has the standard's number, name and size, is available exactly when it can be constructed, and constructs independent objects that compute that function. Registering a constructor affects that identifier only, and unknown identifiers are refused.",
 [I, H], "all identifiers, messages and registration sequences; enumerated: identifiers 0..300, every length in the bound, all registration sequences to a depth",
 "Tests use identifiers indirectly; a wrong table entry is not noticed.",
 [X], [("table", "x509/x509.go Hash, digestSizes, RegisterHash")],
 "exhaustive enumeration of identifiers, lengths and registration sequences on the real code against the standard library",
 "Complete identifier space up to 300 and extremes; registration sequences to depth 3 (4).")
prop("C26", "Certificates, requests and lists made elsewhere are read as written",
 "Reading a certificate, certificate request or revocation list gives for each name, time, number, flag, alternative name, constraint and extension exactly the value encoded, in every string and time type and form the standard allows. A malformed one gives an error, never another value, and an extension that was not understood and is critical is reported as such.",
 [I], "all encodings of every field; enumerated: every character in every string type and place, every time, short names and constraints over an alphabet, flag and version encodings, pairs of extensions, structural changes",
 "Tests read a few certificates with plain fields; odd string types, time forms, constraints and malformed parts are not sampled.",
 ["x509/parser.go", X], [("strings, times, names", "x509/parser.go parseASN1String, parseValidity, parseName"), ("extensions", "x509/parser.go processExtensions, parseNameConstraintsExtension, parseSANExtension"), ("lists and requests", "x509/x509.go ParseCRL, ParseCertificateRequest")],
 "exhaustive enumeration of field encodings on the real code, compared with crypto/x509 and reference decoders of the standards' grammars",
 "Known leniencies (critical identifiers, repeated extensions, surrogates in BMP strings) are listed in the harness and apply to those inputs only.")

with open(V + "/properties.jsonl", "w") as f:
    for id, title, st, over, text, why, files, mech, tech, note in P:
        assert len(title) <= 80, title
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh selftest",
     "checks": [{"property": p[0], "quick_cmd": f"./run.sh check {p[0]}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {p[0]}",
                 "technique": p[8], "level": "model_checking", "level_note": p[9]} for p in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: the concurrency check instruments copies of the packages at check time through go build -overlay."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
