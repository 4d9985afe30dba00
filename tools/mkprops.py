#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os

H = "validators-derive/src/validator_handlers/"
P = []

def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(quant.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

IN = ["inputs"]
IC = ["inputs", "configurations"]

p("C01", "Boolean validators accept exactly the documented words, digits and chars",
  """A boolean validator accepts, ignoring ASCII case, exactly true/t/yes/y/on/1 as true and
  false/f/no/n/off/0 as false, among strings and characters, and exactly 1 as true and 0 as false among
  integers of every width. Everything else is an error, and validating gives the same verdict as parsing.""",
  IN, "every string (bounded length), every char, every integer of every width",
  "The tests try a couple of dozen literals; the words near the accepted ones (case mixes, prefixes, extra bytes, wide integers) are not tried.",
  [H + "boolean/mod.rs", "validators/src/traits/validate_boolean.rs"],
  [("generated string, char and integer parsers", H + "boolean/mod.rs")])

p("C02", "Signed integer validators accept exactly the configured range",
  """For every signed integer type and every kind of range (unlimited, inside or outside, one or two bounds,
  inclusive or exclusive upper bound, a single value), a number handed over in any integer width is accepted
  exactly when it fits the type and the range allows it, and its value is kept. A refusal says too large or too
  small when the number is beyond the type or an inside bound, and forbidden when it lies in an outside range.
  A string is accepted exactly when it is a decimal number (optional sign) for which that holds.""",
  IC, "every integer of every width for every range form; every short string",
  "Tests sample a few numbers per type; the boundaries of each type, width conversion and range form are separate generated code paths.",
  [H + "signed_integer/mod.rs", "validators-derive/src/common/range.rs", "validators-derive/src/common/attributes/range_attribute.rs", "validators/src/traits/validate_signed_integer.rs"],
  [("range comparison generated per form", H + "signed_integer/mod.rs"), ("narrowing from wider integers", H + "signed_integer/mod.rs"), ("range attribute parsing", "validators-derive/src/common/attributes/range_attribute.rs")])

p("C03", "Unsigned integer validators accept exactly the configured range",
  """For every unsigned integer type and every kind of range (unlimited, inside or outside, one or two bounds,
  inclusive or exclusive upper bound, a single value), a number handed over in any integer width is accepted
  exactly when it fits the type and the range allows it, and its value is kept. A refusal says too large or too
  small when the number is beyond the type or an inside bound, and forbidden when it lies in an outside range.
  A string is accepted exactly when it is a decimal number (optional plus sign) for which that holds.""",
  IC, "every integer of every width for every range form; every short string",
  "Tests sample a few numbers per type; the boundaries of each type, width conversion and range form are separate generated code paths.",
  [H + "unsigned_integer/mod.rs", "validators-derive/src/common/range.rs", "validators-derive/src/common/attributes/range_attribute.rs", "validators/src/traits/validate_unsigned_integer.rs"],
  [("range comparison generated per form", H + "unsigned_integer/mod.rs"), ("narrowing from wider integers", H + "unsigned_integer/mod.rs")])

p("C04", "Number validators apply the range and the NaN policy to every float",
  """A floating point validator accepts a number which is not NaN exactly when the configured range allows it, and
  keeps its value bit for bit. NaN is accepted only when the NaN policy allows it, is the only thing accepted when
  the policy demands it, and is refused when the policy forbids it.""",
  IC, "every f32 and f64 bit pattern, for every range form and NaN policy",
  "Comparisons with NaN, infinities, signed zeros and values next to a bound behave differently in each generated branch; tests use a few ordinary numbers.",
  [H + "number/mod.rs", "validators/src/traits/validate_number.rs"],
  [("range and NaN checks generated per configuration", H + "number/mod.rs")])

p("C05", "Length validators accept a collection exactly when its length is in range",
  """A length validator accepts a collection exactly when its number of elements is at least the configured minimum
  and at most the configured maximum (either may be absent, and both may be equal), and keeps the collection
  unchanged. A refusal says too short or too long accordingly.""",
  IC, "every collection length (any machine word), for every combination of bounds",
  "Tests try a handful of vectors; the bounds are compared in separately generated branches.",
  [H + "length/mod.rs", "validators/src/traits/validate_length.rs", "validators/src/traits/collection_length.rs"],
  [("bounds comparison generated per configuration", H + "length/mod.rs"), ("collection lengths", "validators/src/traits/collection_length.rs")])

TEXT = """A %s validator accepts a string exactly when it contains no forbidden control character (%s) and its length
  satisfies every configured bound: the minimum and maximum apply to the whole string and the trimmed minimum to
  the string without the white space at both ends. Lengths count Unicode characters or UTF-8 bytes, as
  configured. An accepted string is kept unchanged, white space included."""
p("C06", "Text validators: no control characters, and every length bound holds",
  TEXT % ("text", "every C0 control except tab, line feed, vertical tab and carriage return, and delete"),
  IC, "every Unicode string up to the bound, for every combination of character/byte length bounds",
  "Each combination of bounds is its own generated scanner; Unicode white space, multi-byte characters and control characters interact with trimming in ways a few samples do not reach.",
  [H + "text/mod.rs", "validators-derive/src/common/attributes/utf8_attribute.rs", "validators-derive/src/common/length.rs"],
  [("scanner generated per combination of bounds", H + "text/mod.rs")])
p("C07", "Line validators: no control characters but tab, and every length bound holds",
  TEXT % ("line", "every C0 control except tab, and delete; so no line breaks"),
  IC, "every Unicode string up to the bound, for every combination of character/byte length bounds",
  "Each combination of bounds is its own generated scanner; Unicode white space, multi-byte characters and control characters interact with trimming in ways a few samples do not reach.",
  [H + "line/mod.rs", "validators-derive/src/common/attributes/utf8_attribute.rs", "validators-derive/src/common/length.rs"],
  [("scanner generated per combination of bounds", H + "line/mod.rs")])

p("C08", "Base32/Base64/URL-safe Base64 text: alphabet, length and padding policy",
  """A base32, base64 or URL-safe base64 text validator accepts a string exactly when it is not empty, uses only the
  characters of its alphabet followed by at most the padding that completes the last block, and its unpadded length
  is one that encoded data can have. Padding is required, optional (all or nothing) or refused as configured.
  The accepted text is kept unchanged.""",
  IC, "every byte string up to the bound, for the three encodings and the three padding policies",
  "Tests use a few encodings of one message; block positions, padding counts and neighbouring characters are not swept.",
  [H + "base32/mod.rs", H + "base64/mod.rs", H + "base64_url/mod.rs"],
  [("alphabet and padding scanner", H + "base32/mod.rs"), ("alphabet and padding scanner", H + "base64/mod.rs"), ("alphabet and padding scanner", H + "base64_url/mod.rs")])

p("C09", "Decoding Base32/Base64 validators return the exact bytes that were encoded",
  """A decoding base32, base64 or URL-safe base64 validator returns, for the standard encoding of any non-empty byte
  string, padded or not as its padding policy allows, exactly those bytes. Whatever it accepts is the encoding of
  what it returns (re-encoding gives the input back, up to padding), and validating accepts exactly what parsing accepts.""",
  IC, "every byte string up to the bound in both directions, for the three encodings and the three padding policies",
  "Tests decode one or two constants; corrupted trailing bits, misplaced padding and concatenated blocks are not tried.",
  [H + "base32_decoded/mod.rs", H + "base64_decoded/mod.rs", H + "base64_url_decoded/mod.rs"],
  [("choice of decoder and padding check", H + "base64_decoded/mod.rs")])

p("C10", "MAC address parsing: digits, separators, letter case and value",
  """A MAC address validator accepts a string exactly when it consists of twelve hexadecimal digits in the configured
  letter case, with separators only between pairs of digits: at all five places when required, at none when refused,
  and at any of them when allowed. The resulting number is the one the digits spell, most significant first.""",
  IC, "every byte string up to and beyond the longest accepted one, for every case and separator policy",
  "Tests use one address in a few spellings; each position of a digit or separator has its own generated handling.",
  [H + "mac_address/mod.rs"],
  [("positional parser generated per separator policy", H + "mac_address/mod.rs")])
p("C11", "UUID parsing: digits, separators, letter case and value",
  """A UUID validator accepts a string exactly when it consists of 32 hexadecimal digits in the configured letter
  case, with separators only after the 8th, 12th, 16th and 20th digit: at all four places when required, at none when
  refused, and at any of them when allowed. The resulting number is the one the digits spell, most significant first.""",
  IC, "every byte string up to and beyond the longest accepted one, for every case and separator policy",
  "Tests use one UUID in a few spellings; each position of a digit or separator has its own generated handling.",
  [H + "uuid/mod.rs"],
  [("positional parser generated per separator policy", H + "uuid/mod.rs")])
p("C12", "MAC address and UUID values print as text which parses back to them",
  """The text a MAC address or UUID validator writes for its value has all the leading zeros, lower case letters
  when lower case is configured and upper case letters otherwise, and the configured separator between the groups exactly when separators are
  allowed or required. The same validator parses this text back to the same value.""",
  IC, "every 48-bit and every 128-bit value, for every case and separator policy",
  "Tests print one value; leading zeros and digit positions are generated separately for each group.",
  [H + "mac_address/mod.rs", H + "uuid/mod.rs", "validators/src/traits/to_mac_address_string.rs", "validators/src/traits/to_uuid_string.rs"],
  [("format strings chosen per case and separator", H + "mac_address/mod.rs"), ("format strings chosen per case and separator", H + "uuid/mod.rs")])

p("C13", "Local IP addresses and names are classified by their reserved ranges",
  """An IPv4 address counts as local exactly when it is private, loopback, link-local, broadcast, documentation or
  unspecified. An IPv6 address counts as local exactly when it is unspecified, loopback, multicast of non-global scope, unicast
  link-local, site-local or unique-local, documentation, or embeds (compatible or mapped) a local IPv4 address.
  A name counts as local exactly when it is localhost in any case, with or without the root dot, and has at least two
  labels exactly when a dot other than the root dot is in it.""",
  IN, "all 2^32 IPv4 addresses, all 2^128 IPv6 addresses, all short names",
  "The address space cannot be sampled densely enough to see an off-by-one prefix; the existing tests try a few addresses.",
  ["validators/src/functions/ip.rs", "validators/src/functions/ipv4.rs", "validators/src/functions/ipv6.rs", "validators/src/functions/domain.rs"],
  [("classification of IPv4 and IPv6 addresses", "validators/src/functions/ipv6.rs"), ("local names", "validators/src/functions/domain.rs")])

p("C14", "IP validators: address, port and local policy",
  """An ip, ipv4 or ipv6 validator accepts a string exactly when it is an IP address of the right family (an IPv6
  address may stand in brackets, and must when a port follows), followed by a colon and a decimal port from 0 to 65535 when the
  port policy allows or demands one, and the local policy admits the address. The resulting address and port are the
  ones written.""",
  IC, "every address and port, every string up to the bound, for every local and port policy",
  "The policies combine into separately generated code; tests use a few addresses and one port.",
  [H + "ip/mod.rs", H + "ipv4/mod.rs", H + "ipv6/mod.rs", "validators/src/functions/ip.rs", "validators/src/functions/ipv4.rs", "validators/src/functions/ipv6.rs"],
  [("address/port splitting", H + "ip/mod.rs"), ("port parsing", "validators/src/functions/ip.rs")])

p("C15", "URI authority strings parse back to the same IP, host or domain and port",
  """The authority strings which an ip, ipv4, ipv6, host or domain validator writes for an accepted value have the form
  host or host:port, with an IPv6 host in brackets. The same validator accepts them again with the same host and port; a
  root dot is not written.""",
  IC, "every address, port and short domain, for every port policy and value shape",
  "Writing and parsing are generated separately per configuration; tests check a few strings.",
  [H + "ip/mod.rs", H + "host/mod.rs", H + "domain/mod.rs", "validators/src/traits/to_uri_authority_string.rs"],
  [("authority writers", H + "host/mod.rs")])

p("C16", "Domain validators: name, IPv4, port, local and label-count policies",
  """A domain validator accepts a domain name or an IPv4 address (each optionally ended by one root dot) followed by a port
  where the port policy has one, exactly when the port, IPv4, local and at-least-two-labels policies all admit it.
  The reported domain is the normalised text without the port, the reported port is the one written, and is-IPv4 and
  is-local, where reported, tell the truth.""",
  IC, "every short domain, IPv4 address and port for all 81 combinations of the four policies",
  "81 combinations generate different code; each existing test covers one combination with a few names.",
  [H + "domain/mod.rs", "validators/src/functions/domain.rs", "validators/src/functions/ipv4.rs"],
  [("policy checks generated per combination", H + "domain/mod.rs")])

p("C17", "Host validators: name, IPv4, IPv6, port, local and label-count policies",
  """A host validator accepts a domain name without a root dot, an IPv4 address or an IPv6 address (in brackets when a
  port follows), exactly when the port, local and at-least-two-labels policies all admit it. The reported host has the
  kind and value written, the reported port is the one written, and is-local, where reported, tells the truth.""",
  IC, "every short name, IP address and port for all 27 combinations of the three policies",
  "27 combinations generate different code; each existing test covers one combination with a few hosts.",
  [H + "host/mod.rs", "validators/src/functions/domain.rs", "validators/src/functions/ip.rs"],
  [("policy checks generated per combination", H + "host/mod.rs")])

p("C18", "Email structure: dot-atom or quoted local part, comments, one domain part",
  """An email validator accepts an unquoted local part exactly when it is made of atom characters (and non-ASCII
  characters where allowed) with single dots between them, and a quoted local part exactly when every special character is
  escaped by a backslash. Comments in parentheses may stand before and after each part only when comments are allowed, and
  nothing else may surround the parts. The reported local part is the text written without its quotes, marked as needing quotes exactly
  when it is not a valid unquoted local part.""",
  IC, "every short address for every comment and non-ASCII policy",
  "The parser is a hand-written state machine (escape, last dot, quotes, four comments) whose states the tests visit with a few dozen literals.",
  [H + "email/mod.rs"],
  [("local part and comment state machine", H + "email/mod.rs")])

p("C19", "Email length limits hold for every accepted address",
  """Whatever an email validator accepts has a local part (with its comments and quotes) of at most 64 bytes, a domain part of
  at most 255 bytes and at most 320 bytes in total. A local part of exactly 64 ordinary characters is still accepted, and 65 is refused.""",
  IC, "local parts around the limit in every form: plain, quoted, commented, non-ASCII",
  "The limits are checked at several places of the state machine by absolute positions; a test with one long string reaches one of them.",
  [H + "email/mod.rs"],
  [("position checks in the local part scanner", H + "email/mod.rs")])

p("C20", "Email domain part: IP literal, local and label-count policies",
  """The domain part of an email address may be a bracketed IPv4 address, a bracketed IPv6 address with the IPv6: prefix, or a domain
  name without a root dot, and it is accepted exactly when the IP, local and at-least-two-labels policies admit it.
  The reported domain part has the kind and value written, and is-local, where reported, tells the truth.""",
  IC, "every short name and IP literal for all combinations of the policies",
  "54 combinations generate different code; each existing test covers one with a few addresses.",
  [H + "email/mod.rs", "validators/src/functions/domain.rs"],
  [("domain part and IP literal handling generated per combination", H + "email/mod.rs")])

p("C21", "Email values print as an address which parses back to the same value",
  """The address an email validator writes for an accepted value is accepted again by the same validator and gives the same
  value: local part, need for quotes, domain part and comments.""",
  IC, "every short accepted address, for every comment and IP policy",
  "Quotes, escapes, comments and IP literals are put back by separately generated code; the tests print a few addresses.",
  [H + "email/mod.rs", "validators/src/traits/to_email_string.rs"],
  [("writers generated per comment and IP policy", H + "email/mod.rs")])

p("C22", "Deserializing applies the same rules as parsing, and round-trips",
  """Deserializing a string, integer, float or boolean into a validated type succeeds exactly when parsing that value with the
  type's validator succeeds, with the same resulting value; so does a byte string or char where the validator takes them. Serializing a
  value gives the number, boolean or text it stands for, and deserializing that gives the value back (decoding Base32/Base64 types, which
  serialize to the decoded bytes, and JSON types excepted).""",
  IC, "every short string and every primitive for the types that support serde",
  "The serde glue is generated separately for each validator; tests do not deserialize anything.",
  [H, "validators/src/result/serde_traits.rs"],
  [("generated visitors", H + "number/mod.rs")])

p("C23", "The result wrapper captures exactly the outcome of the wrapped validator",
  """The result wrapper parses to a captured value when the wrapped validator accepts the input and to a captured error when it
  refuses it, for every kind of input which that validator takes (text, bytes, chars, booleans, integers and floats of every
  width), whether converted, parsed or deserialized, and never fails itself. A number which the widest type of the validator cannot
  hold is captured as too small or too large. Converting to and from the standard result keeps the outcome.""",
  IN, "every short string and primitive",
  "The wrapper forwards about fifty entry points one by one; tests exercise none of them.",
  ["validators/src/result/mod.rs", "validators/src/result/built_in_traits.rs", "validators/src/result/serde_traits.rs"],
  [("forwarding to the wrapped validator", "validators/src/result/serde_traits.rs")])

p("C24", "Every entry point of a validator gives the same verdict and value",
  """For every validator, parsing a borrowed string, parsing an owned string, parsing bytes or characters where supported, and
  validating without keeping the result accept exactly the same inputs with the same value. No input, however malformed, makes
  any of them panic.""",
  IC, "every short string, valid or not",
  "Each entry point is generated separately; tests mostly call one of them.",
  [H, "validators/src/traits/validate_string.rs", "validators/src/traits/validate_bytes.rs"],
  [("generated trait implementations", H)])

p("C25", "HTTP and FTP URL validators admit only their schemes and the local policy",
  """An HTTP URL validator accepts only URLs whose scheme is http or https (an HTTP/FTP URL validator also ftp), in any case,
  reports which one it is, and applies the local policy to the host of the URL: a local host is refused when forbidden and
  demanded when required.""",
  IC, "every short scheme prefix; every host kind for every local policy",
  "Tests use a few URLs; the scheme prefix check and the host classification are separate generated code.",
  [H + "http_url/mod.rs", H + "http_ftp_url/mod.rs", "validators/src/models/protocol.rs"],
  [("scheme prefix check and local check", H + "http_url/mod.rs")])

p("C26", "Bit and byte size validators apply the configured range to the size",
  """A bit or byte size validator accepts an integer exactly when the configured range (an optional minimum and
  an optional maximum, which is inclusive or exclusive) allows that number of bits or bytes, and keeps the size.""",
  IC, "every integer of every width for every range form",
  "Each range form is its own generated code; the tests try a few sizes.",
  [H + "bit/mod.rs", H + "byte/mod.rs"],
  [("range comparison generated per form", H + "bit/mod.rs")])

p("C27", "A domain says whether it is fully qualified and gives its name without root dot",
  """A domain value is fully qualified exactly when its name ends with the root dot. Its non-fully-qualified form is the name
  without that dot and otherwise unchanged; it never ends with a dot and is never empty.""",
  IC, "every short accepted domain",
  "Tests check two names.",
  [H + "domain/mod.rs", "validators/src/traits/qualify_domain.rs"],
  [("qualification", H + "domain/mod.rs")])

p("C28", "Phone number validators accept numbers of the configured countries",
  """A phone validator accepts a string exactly when it is a valid phone number of one of the configured countries, and
  reports the parsed numbers by country.""",
  IC, "every string, for every list of countries",
  "Tests try a few numbers.",
  [H + "phone/mod.rs"], [("calls into the phonenumber crate", H + "phone/mod.rs")])

p("C29", "JSON validators accept exactly the JSON texts of the wrapped type",
  """A JSON validator accepts a string exactly when it is the JSON text of a value of the wrapped type and gives that value; numbers and booleans
  handed over directly are converted as the JSON value they are.""",
  IC, "every string and primitive",
  "Tests try a few texts.",
  [H + "json/mod.rs"], [("calls into serde_json", H + "json/mod.rs")])

p("C30", "Regex validators accept exactly the strings the expression matches",
  """A regex validator accepts a string exactly when the configured regular expression matches it, and keeps the string unchanged.""",
  IC, "every string, every outcome of the match",
  "Tests try a few strings for three expressions.",
  [H + "regex/mod.rs"], [("generated match call", H + "regex/mod.rs")])

p("C31", "Version and plain URL validators mirror the underlying parsers",
  """A semver, semver requirement or plain URL validator accepts a string exactly when the underlying parser accepts it, and
  gives that parser's value.""",
  IN, "every string",
  "Tests try a few strings.",
  [H + "semver/mod.rs", H + "semver_req/mod.rs", H + "url/mod.rs"], [("calls into the semver and url crates", H + "semver/mod.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
