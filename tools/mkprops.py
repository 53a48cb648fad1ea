#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Body canonicalization is RFC 6376 simple/relaxed, for any chunking",
  "For every message body and every way of cutting it into chunks (empty chunks and cuts inside CRLF or white space included), the concatenated output of the body canonicalizer is exactly the RFC 6376 section 3.4.3 (simple) or 3.4.4 (relaxed) canonical form of the whole body. In particular an empty body, and a body made of empty lines only, is CRLF under simple and nothing under relaxed, trailing empty lines vanish, only CRLF counts as line break, and stray CR or LF are ordinary bytes.",
  ["inputs", "histories"], "all byte strings as bodies, all sequences of chunks whose concatenation is the body, both algorithms",
  "the unit tests run a dozen literal bodies with two or three fixed chunk splits; the state machine has six states and must agree with the specification for every byte sequence and every split",
  ["src/canonicalize.rs"],
  [("six-state machine over bytes", "canonicalize.rs BodyCanonicalizer::canon_chunk_relaxed, canon_chunk_simple"), ("final flush", "canonicalize.rs BodyCanonicalizer::finish")],
  ["BodyCanonicalizer::canonicalize_chunk", "BodyCanonicalizer::finish"],
  [("state, blank_line, empty_lines", "what was seen last; pending empty lines", "canonicalize.rs BodyCanonicalizer")])
p("C02", "Header field canonicalization is RFC 6376 simple/relaxed",
  "For every valid header field name and body, the canonical form appended for one field is: under simple, name, colon and body unchanged; under relaxed, the name in lower case, a colon, and the body unfolded, with every run of white space reduced to one space and no white space at either end. What was already in the output buffer stays as it was.",
  ["inputs"], "all header field names and all well-formed header field bodies, both algorithms",
  "tests check four literal fields; the rule must hold for any mix of folding, tabs, non-ASCII bytes and all-white-space values",
  ["src/canonicalize.rs"],
  [("trim and compress", "canonicalize.rs canonicalize_header_relaxed"), ("dispatch", "canonicalize.rs canonicalize_header")],
  ["canonicalize::canonicalize_header"])
p("C03", "Signed header instances are taken bottom-up, each at most once",
  "Given a message header and a list of names, the canonicalized header block consists, in list order, of one field per list entry: the n-th mention of a name (compared ignoring case) stands for the n-th instance of that field counted from the bottom of the header, followed by CRLF. A mention with no instance left contributes nothing, and no instance is used twice.",
  ["inputs"], "all header sections and all lists of names, with any repetition and letter case",
  "one test with a single repeated name; the selection depends on how often each name occurs in both lists",
  ["src/canonicalize.rs"],
  [("reverse scan with used indexes", "canonicalize.rs canonicalize_headers")],
  ["canonicalize::canonicalize_headers", "message_hash::compute_data_hash"],
  [("processed_indexes", "field instances already used", "canonicalize.rs canonicalize_headers")])
p("C04", "Body hashes are exact for every length limit, chunking and request set",
  "For every set of body hash requests, body and chunking, each request is answered with the digest and byte count of the canonical body (whole without a limit, its first n bytes with limit n), with an insufficient-input error when the canonical body is shorter than n, and, if partial hashing is forbidden, with a truncation error exactly when it is longer. Requests do not influence each other. When the hasher reports that it is done, the answers no longer depend on any further chunk.",
  ["inputs", "histories", "configurations"], "all bodies, chunkings, sets of (limit, hash, canonicalization) requests and both truncation policies",
  "tests use one or two requests and two chunkings; limits falling inside pending white space or empty lines, and several requests sharing a canonicalizer, are not reached",
  ["src/message_hash.rs", "src/crypto/hash.rs"],
  [("byte-counting hasher", "crypto/hash.rs CountingHasher"), ("one canonicalizer per algorithm shared by all requests", "message_hash.rs BodyHasher::hash_chunk, finish")],
  ["BodyHasher::hash_chunk", "BodyHasher::finish", "BodyHashResults::get"],
  [("bytes_written", "bytes digested so far", "crypto/hash.rs CountingHasher"), ("hashers", "per request hasher and truncation flag", "message_hash.rs BodyHasher")])
p("C05", "What the signer signs, the verifier accepts",
  "For every message, and every signing request that is accepted and answered with a signature, prepending the produced header field to the message and verifying it with the matching public key record gives success, for any canonicalization, algorithm, header selection, length limit and output format, and any chunking on either side (with RSA keys of at least 1024 bits and a verifier configuration whose policy the signature meets). The signature data returned alongside agrees with what parsing the produced header gives.",
  ["inputs", "configurations", "histories"], "all messages, accepted signing requests, output formats, chunkings",
  "the integration tests sign and verify a handful of messages with nearly default options; the two sides share no state and must agree byte for byte on the hashed header for every format",
  ["src/signer/sign.rs", "src/signer/format.rs", "src/verifier/verify.rs", "src/verifier/mod.rs", "src/message_hash.rs"],
  [("header hashed with empty b=", "signer/sign.rs produce_signature, signer/format.rs format_without_signature"), ("b= value removed again", "verifier/verify.rs make_original_dkim_sig")],
  ["Signer::sign", "Verifier::finish"])
p("C06", "Verification hashes the signature field with only its b= value removed",
  "When a signature is verified, the signature header field enters the hash exactly as received, except that everything between the equals sign of its b tag and the following semicolon (or the end) is left out. No other tag is touched, whatever the order of the tags, white space around the tag name, or occurrences of the letter b elsewhere.",
  ["inputs"], "all well-formed signature field values",
  "tests have five literal values; tag order, folding around the name and tags such as bh or values ending in b= make the difference",
  ["src/verifier/verify.rs", "src/tag_list.rs"],
  [("segment scan at semicolons", "verifier/verify.rs make_original_dkim_sig"), ("tag name recogniser", "tag_list.rs strip_tag_name_and_equals")],
  ["Verifier::finish", "message_hash::compute_data_hash"])
p("C07", "Success means hash, key and signature all check out",
  "A signature is reported successful only if some usable key record for its domain and selector permits it and the key in that record cryptographically verifies the signature value over the canonical selected header fields plus the signature field, and the declared body hash equals the digest of the canonical body (up to the declared length). Changing any signed header field, any covered body byte, or the signature or body hash value makes the result a failure.",
  ["inputs", "histories"], "all messages, signatures, key records and modifications",
  "tests flip one thing in one message; soundness is a claim about every modification",
  ["src/verifier/header.rs", "src/verifier/verify.rs", "src/verifier/mod.rs", "src/crypto/mod.rs", "src/crypto/rsa.rs", "src/crypto/ed25519.rs"],
  [("verification task", "verifier/header.rs verify_task"), ("signature check", "verifier/verify.rs perform_verification, verify_signature"), ("body hash comparison", "verifier/mod.rs verify_body_hash, Verifier::finish")],
  ["Verifier::finish", "VerificationResult::status"],
  [("status", "preliminary then final status of a signature", "verifier/mod.rs VerifierTask")])
p("C08", "Verifier policy settings are enforced exactly",
  "A signature fails with the matching policy error exactly when: a configured required header is missing from its signed list; a configured never-unsigned header occurs more often in the message than in the signed list; the current time is at or past expiration plus tolerance (unless allowed); its timestamp minus tolerance is later than the current time (unless allowed); it uses SHA-1 without permission; its RSA key has fewer bits than the configured minimum; or it covers only part of the body while that is forbidden. Policy never turns a failing signature into a success, and times saturate instead of wrapping.",
  ["inputs", "configurations"], "all signatures, messages and configurations, including extreme times and tolerances",
  "tests probe single default settings; the boundaries (equal times, saturation at the top of the range, counts of repeated fields) and combinations are not sampled",
  ["src/verifier/header.rs", "src/verifier/mod.rs"],
  [("policy checks", "verifier/header.rs validate_signature, validate_signed_headers, validate_verifying_key"), ("clock", "verifier/mod.rs Config::current_timestamp"), ("truncation policy", "verifier/mod.rs Verifier::verify_header")],
  ["Verifier::finish", "VerificationStatus"])
p("C09", "Key record constraints are enforced",
  "A signature never verifies with a key record whose key type differs from the signature algorithm, whose key is empty (revoked), whose hash list excludes the signature's hash, or which forbids subdomains while the identity domain differs (IDNA-aware, ignoring case) from the signing domain; each case fails with its own error. RSA keys below the absolute minimum size are refused whatever the configuration, and with several records, of which three are considered, the first one that verifies decides, otherwise the last one tried.",
  ["inputs", "configurations"], "all key records, sets of records and signatures",
  "tests cover one record at a time with one defect; precedence among defects and among several records is not reached",
  ["src/verifier/header.rs", "src/crypto/mod.rs", "src/crypto/rsa.rs"],
  [("record checks", "verifier/header.rs validate_key_record, read_verifying_key"), ("record loop", "verifier/header.rs verify_task"), ("minimum key size", "crypto/mod.rs VerifyingKey::validate_min_key_size, crypto/rsa.rs get_public_key_size")],
  ["Verifier::finish"])
p("C10", "Tag lists follow the RFC 6376 grammar, names unique",
  "A string is accepted as a tag list exactly when it matches the RFC 6376 section 3.2 grammar (with erratum 5070, UTF-8 in values, one optional final semicolon) and no tag name occurs twice; the names and values reported are the text between the delimiters with surrounding folding white space removed (one FWS if the value is empty), in order. Nothing else in the string is lost or altered.",
  ["inputs"], "all strings",
  "tests list some twenty literal strings; the grammar is recursive over any number of tags and any placement of folding white space",
  ["src/tag_list.rs", "src/parse.rs"],
  [("recursive descent", "tag_list.rs strip_tag_list, strip_tag_spec, strip_tag_value"), ("folding white space", "parse.rs strip_fws, rstrip_fws"), ("duplicate check", "tag_list.rs TagList::from_str")],
  ["DkimSignature::from_str", "DkimKeyRecord::from_str"])
p("C11", "A parsed signature satisfies the RFC 6376 tag rules",
  "A signature field value parses successfully exactly when it is a tag list with v=1 and the required tags a, b, bh, d, h, s, each value is valid for its tag, From is signed, the identity domain is the signing domain or below it, expiration is later than timestamp, numbers are plain digit strings in range, and dns/txt is among the query methods if given. The parsed data carry exactly the decoded tag values, defaults are simple/simple and no limit, unknown tags are kept in order, and every failure names the violated rule.",
  ["inputs"], "all strings",
  "tests parse about ten literal signatures; each of the fourteen tags has its own syntax, defaults and interplay",
  ["src/signature.rs", "src/tag_list.rs"],
  [("tag dispatch and cross checks", "signature.rs DkimSignature::from_tag_list_internal"), ("value parsers", "tag_list.rs parse_colon_separated_value, parse_base64_value, parse_quoted_printable_value")],
  ["DkimSignature::from_str", "DkimSignatureError"])
p("C12", "A parsed key record satisfies the RFC 6376 record rules",
  "A key record parses successfully exactly when it is a tag list in which v, if given, comes first and is DKIM1, p is present and valid Base64, k is a supported key type, and h, s and t lists have no empty item and leave at least one supported item for h and s. Unrecognised list items are ignored, defaults are all hashes, RSA, any service and no flags, unknown tags are kept in order, and every failure names the violated rule.",
  ["inputs"], "all strings",
  "tests parse four literal records",
  ["src/record.rs", "src/tag_list.rs"],
  [("tag dispatch", "record.rs DkimKeyRecord::from_tag_list")],
  ["DkimKeyRecord::from_str"])
p("C13", "DKIM-Quoted-Printable decodes what it encodes",
  "For every byte string and every set of encoding options, the encoded text contains only safe characters and upper-case hex escapes (no semicolon, space, control or, if so requested, separator or non-ASCII character), and decoding it gives back the original bytes. (The separator is neither an equals sign nor a hexadecimal digit.) Decoding accepts exactly the RFC 6376 section 2.11 grammar with folding white space ignored, hexadecimal digits in either case, and never panics.",
  ["inputs"], "all byte strings, all strings, all options",
  "tests have a few literals; the encoder splits its input at UTF-8 boundaries, so malformed UTF-8 and multi-byte characters matter",
  ["src/quoted_printable.rs", "src/parse.rs", "src/util.rs"],
  [("encoder", "quoted_printable.rs encode_internal"), ("decoder", "quoted_printable.rs decode, strip_hex_octet, u8_from_digits"), ("qp-section", "quoted_printable.rs decode_qp_section")],
  ["quoted_printable::encode", "quoted_printable::decode"])
p("C14", "A produced signature field is well-formed whatever the format",
  "For every accepted signing request and format (line width, indentation, tag order, header name, ASCII-only), the produced field is a valid header field whose value parses back to the signature data returned with it, and tags appear in the requested order. Lines break only at folding points, no line is longer than the width, apart from a final semicolon, unless a single unbreakable item (plus its delimiter) is, and ASCII-only output contains only ASCII, apart from the values of extension tags, which are written as given. (The tag order comparator is a total order.)",
  ["inputs", "configurations"], "all accepted requests and formats, widths from 1 up",
  "tests format some fixed signatures at a few widths; cursor arithmetic decides for every width, indentation and value length whether a break falls where parsing allows it",
  ["src/signer/format.rs"],
  [("cursor and line breaking", "signer/format.rs advance_i, advance_i_initial, format_chunks_into_string"), ("insertion of b=", "signer/format.rs insert_signature_data"), ("tag selection", "signer/format.rs compute_tag_names")],
  ["SigningOutput::header_value", "SigningOutput::to_header_field"])
p("C15", "Header values are validated so that no field can smuggle another",
  "A field name is accepted exactly when it is non-empty printable ASCII without colon; a field body exactly when it contains no control characters other than tab and CRLF, and every CRLF starts a continuation line that begins with white space and is not only white space. Parsing a header block yields, in order, exactly its fields with LF or CRLF line ends normalised, and rejects everything else; names compare and hash ignoring ASCII case.",
  ["inputs"], "all strings and byte strings",
  "tests use a few literals; header injection needs one unusual byte sequence",
  ["src/header.rs"],
  [("name check", "header.rs FieldName::new"), ("body check", "header.rs FieldBody::new, split_crlf"), ("block parser", "header.rs HeaderFields::from_str")],
  ["FieldName::new", "FieldBody::new", "HeaderFields::from_str", "HeaderFields::from_vec"])
p("C16", "Domain, selector and identity validity and the subdomain relation",
  "A domain or selector is accepted exactly when its IDNA form consists of non-empty labels of letters, digits, hyphen and underscore, of legal length, not starting or ending with a hyphen (and, for domains, without an all-numeric top label); an identity exactly when it is an optional RFC 5321/6531 local part, an at sign and a valid domain. One domain is equal to or below another exactly when their A-label forms, ignoring case, are equal or the longer one ends in a dot plus the shorter one.",
  ["inputs"], "all strings, all pairs of domains",
  "tests list some literals; label-boundary mistakes (evil-example.com under example.com) and length limits need specific inputs",
  ["src/signature.rs"],
  [("name check", "signature.rs is_valid_domain_string, is_valid_dns_name, is_label"), ("relation", "signature.rs DomainName::eq_or_subdomain_of"), ("identity", "signature.rs Identity::new, is_local_part")],
  ["DomainName::new", "Selector::new", "Identity::new", "DomainName::eq_or_subdomain_of"])
p("C17", "One isolated result per signature, with the right key lookups",
  "Verification returns exactly one result per DKIM-Signature field, in header order from the top and at most the configured number, carrying the field's position; no signature's outcome depends on the others. Keys are looked up at selector._domainkey.domain. in A-label form, once per distinct pair and only for signatures still undecided; lookup outcomes map to no key (empty or not found), invalid domain, timeout, or lookup failure.",
  ["inputs", "histories", "fault_sequences"], "all headers with any mix of good and bad signatures, all resolver answers and errors",
  "tests use one or two signatures with a well-behaved resolver",
  ["src/verifier/header.rs", "src/verifier/query.rs", "src/verifier/mod.rs"],
  [("task list", "verifier/header.rs HeaderVerifier::find_signatures, verify_all"), ("lookup table", "verifier/query.rs QueriesBuilder, look_up_records"), ("error mapping", "verifier/header.rs map_lookup_result_to_key_records")],
  ["Verifier::verify_header", "Verifier::finish", "LookupTxt::lookup_txt"],
  [("tasks", "one per signature field", "verifier/header.rs HeaderVerifier"), ("lookup_pairs", "domain/selector to signatures", "verifier/query.rs QueriesBuilder")])
p("C18", "Signing requests are validated and signed as requested",
  "Preparing a signer fails exactly when the header has no From field, there are no requests or more than ten, or some request has a key not matching its algorithm, a manual header list without From or with a semicolon in a name, an identity outside the domain, a validity below one second, unusable extension tags, a foreign header name or invalid indentation. Otherwise there is one outcome per request in order, each reflecting only its own request: expiration is timestamp plus validity (saturating), the length tag is the number of bytes hashed, automatic selection takes every instance of the default fields bottom-up.",
  ["inputs", "configurations"], "all headers and request lists",
  "tests use one or two requests; validation has twelve conditions and the outcomes have many optional parts",
  ["src/signer/mod.rs", "src/signer/sign.rs"],
  [("request validation", "signer/mod.rs validate_request, Signer::prepare_signing"), ("assembling the signature", "signer/sign.rs perform_signing, select_signed_headers, prepare_copied_headers")],
  ["Signer::prepare_signing", "Signer::sign"])
p("C19", "Verification outcomes map to the documented RFC 8601 results",
  "Every verification status maps to the documented result: pass for success only; fail for a signature or body hash that does not verify; policy for every policy error; temperror for lookup timeouts and failures only; permerror for definite defects (missing or contradictory tags, missing or revoked or mismatched keys, too little content); neutral for what could not be understood.",
  ["inputs"], "all statuses",
  "no test enumerates the statuses, and wrong classes mislead mail policy silently",
  ["src/verifier/mod.rs"],
  [("mapping", "verifier/mod.rs VerificationStatus::to_dkim_result")],
  ["VerificationStatus::to_dkim_result"])
p("C20", "No input makes signing, verifying or parsing panic or hang",
  "For all inputs (headers, bodies and chunks, signature fields, key records and key bytes, resolver answers, configurations, formats), parsing, verifying and signing return normally: no panic, no overflow, no endless loop.",
  ["inputs", "configurations", "fault_sequences"], "all inputs",
  "tests only run inputs somebody thought of; a panic is a denial of service on hostile mail",
  ["src/canonicalize.rs", "src/message_hash.rs", "src/crypto/hash.rs", "src/tag_list.rs", "src/quoted_printable.rs", "src/signature.rs", "src/record.rs", "src/verifier/header.rs", "src/verifier/verify.rs", "src/signer/format.rs"],
  [("internal assertions, slicing and unwraps", "all of src")],
  ["Verifier::finish", "Signer::sign", "DkimSignature::from_str", "DkimKeyRecord::from_str"])
p("C21", "Key lookups are bounded by the configured timeout",
  "A key lookup that takes longer than the configured lookup timeout ends in a timeout failure, a temporary error, for the signatures that need it. Verification therefore ends even if the resolver never answers.",
  ["fault_sequences", "configurations"], "all resolver delays and timeout settings",
  "no test has a slow resolver",
  ["src/verifier/query.rs", "src/verifier/mod.rs"],
  [("lookup timeout setting", "verifier/mod.rs Config::lookup_timeout, verifier/query.rs QueriesBuilder::spawn_all")],
  ["Verifier::verify_header"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
