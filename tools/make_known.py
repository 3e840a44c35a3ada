#!/usr/bin/env python3
"""Writes /verif/known_findings.json from the lists below (by hand, never at run time of a check)."""
import json, os
known = [
 dict(property="C06", key="C06-hex-looking-identifier",
      what="a 160/256-bit identifier whose bytes are all ASCII hexadecimal digits is unhexlified when serialised (10/16 bytes written instead of 20/32); pinned by the existing test suite, which writes such an identifier"),
 dict(property="C05", key="C05-2000-list-no-round-trip",
      what="a list of 2000 hashes is written as 32 raw reversed bytes per hash but read as 64 hexadecimal digits per hash, so it does not round-trip; each side is pinned by the existing test suite"),
 dict(property="C09", key="C09-large-amount-text-rounded",
      what="the text of an amount of more than 2^26 whole units is rounded to a double's digits (40507659919.76829523 prints as 40507659919.768295); pinned by the existing test suite"),
 dict(property="C25", key="C25-one-shot-sign-broken",
      what="the one-shot P-256 toolkit signing helper always fails with a TypeError (the nonce argument is missing and the order is passed as a field)"),
]
fixed = """
C08 9ac9abd ordering of identifiers ignored the least significant byte
C08 28f7665 an identifier built from a caller's bytearray shared it
C04 3c9cea8 deserialising an identifier from too few bytes was accepted (and could shrink it)
C09 aebac73 amounts from floats lost a unit (0.29 gave 28999999)
C09 de4b06c amounts parsed from text went through a float; nan and inf raised
C10 b7a04a5 rounding of large amounts went through a float
C10 95002fd division of large amounts went through a float
C09 c29b1e5 small amounts were printed with an exponent
C02 42fb86a fixed-size texts that look like hexadecimal were unhexlified
C05 4af04b0 hashes whose bytes look like hexadecimal were unhexlified in hash lists
C05 2910189 the same in lists of 2000 hashes
C02 d70175d texts in encodings such as utf-16 were mangled or unhexlified
C01 1f44ff8 a byte given as a bool or big integer was dropped silently
C02 36d2bb6 an integer over 64 bits left a prefix byte in the stream before being refused
C02 14ce44c the reported byte counts of variable-length writes left out the prefix
C23 3c2cda3 points with equal x were unordered
C04 0b2c8dc a truncated compressed point was accepted
C22 8c1db8e coordinates not below the field prime were accepted
C22 02c23ab trailing bytes behind the infinity encoding were accepted
C22 5b9743c raw public keys were unhexlified by the multi-form decoder
C24 22fa513 scalar multiplication halved big scalars in floating point
C24 7521776 dividing an integer by a field value raised
C24 c56e2fc the negation of zero was not reduced
C26 70e86c0 square root exponents were floats
C24 b2102d7 the NIST P-256 toolkit curve had a wrong group order
C26 998e112 random integers exceeded the requested size
C26 1c0b83f modular square roots for primes 1 mod 4 were never searched
C21 b515c3f signing depended on the curve selected before
C21 b8c15f1 verifying with compressed keys depended on the curve selected before
C20 9b730b1 verifying with a malformed key raised
C14 f9f057f the right subtree was trimmed by wrong flags; missing flags and duplicated children raised
C16 223076d addresses with another version or payload length were accepted as valid
C16 c5b4387 the address decoder accepted other versions and lengths and raised the wrong error
C18 e10c4ea another NEP-2 header, flag or length was accepted
C19 1667461 the private key zero gave a key pair at infinity
C26 717030d the modular inverse of a negative number was that of its absolute value (division by negative integers, crack2 with s1 < s2)
C24 37781dd multiplication of a point by a negative integer never ended
C25 9acab96 toolkit verification compared r modulo the field prime instead of the group order
C09 bb23709 amounts with more than 28 digits were rounded to the decimal context before extra digits were cut off
C25 9180739 toolkit verification accepted the signature (0, 0) for every message and key
C32 2bb6b1a the text of an amount counted in BigInteger units was floored
C36 b5cad96 numbers compared by identity: the modules could not be imported with warnings as errors
C36 fb276d4 xor_bytes took bytes of other kinds and lengths with -O
C36 cd79339 large amounts could not be parsed when the default decimal context has small exponent limits
C35 69907ae reading a list of hashes looped as often as its count prefix claimed, whatever the data
""".strip().split('\n')
out = {"known": known, "fixed": ["fixed: property=%s %s %s" % tuple(l.split(' ', 2)) for l in fixed]}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
