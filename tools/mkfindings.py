#!/usr/bin/env python3
"""Writes known-findings.json: open findings (none) and the defects which were repaired in /repo."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
F = """C16 b2ee79a domain: an IPv4 address with a port kept the port in the domain
C10 404a6f9 mac_address: short strings with separators panicked instead of being refused
C12 8a5155a mac_address, uuid: the separator was printed as its code number
C09 705701c base32/64/64url_decoded: validating accepted inputs which parsing refuses
C08 60f0f35 base32/64/64url: strings whose length no encoded data has were accepted
C03 3e95333 unsigned_integer: a forbidden range with both bounds did not compile
C05 2246961 length: an exact length did not compile
C06 b64c0dc text: leading control characters which are also white space were accepted
C07 b64c0dc line: leading control characters which are also white space were accepted
C22 92118b2 semver, semver_req, url: deserializing recursed endlessly
C22 5c3f5ac signed_integer, unsigned_integer, number: integers of the other signedness were refused when deserializing
C14 4627848 ip, ipv4, ipv6: a plus sign before the port number was accepted
C16 4627848 domain: a plus sign before the port number was accepted
C17 4627848 host: a plus sign before the port number was accepted
C16 0032708 domain: full-width characters bypassed the checks for IPv4 addresses and ended dots
C17 0032708 host: full-width characters bypassed the checks for IPv4 addresses and ended dots
C19 6ae80e7 email: a comment behind a local part of the maximum length overflowed and panicked
C19 518df5f email: the length limit of the local part did not cover non-ASCII characters and local parts behind comments
C18 cb5d581 email: a local part which ends with a dot was accepted without quotes
C18 cf1929d email: an escape sequence was not ended by a white space in a quoted local part
C18 a7398ad email: characters behind the last comment were accepted
C19 207ee84 email: the quotes of the local part counted towards the length of the domain part
C20 da76291 email: the IDNA mapping could end the domain with a dot
C21 d13fef5 email: the quotes of the local part were not written when comments are disallowed"""
json.dump({"findings": [], "fixed": ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in F.split("\n")]},
          open(os.path.join(R, "known-findings.json"), "w"), indent=1)
