#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the texts stay easy to edit)."""
import json, os

R = 'neocore/IO/BinaryReader.py'; W = 'neocore/IO/BinaryWriter.py'; U = 'neocore/UIntBase.py'
U1 = 'neocore/UInt160.py'; U2 = 'neocore/UInt256.py'; F8 = 'neocore/Fixed8.py'; BI = 'neocore/BigInteger.py'
MT = 'neocore/Cryptography/MerkleTree.py'; H = 'neocore/Cryptography/Helper.py'; CR = 'neocore/Cryptography/Crypto.py'
EC = 'neocore/Cryptography/ECCurve.py'; KP = 'neocore/KeyPair.py'; UT = 'neocore/Utils.py'; CLI = 'neocore/bin/cli.py'

P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Fixed-width values round-trip with their exact wire bytes",
  "Every fixed-width value (signed and unsigned integers of 8 to 64 bits, booleans, characters, floats, doubles, single bytes and 8-decimal amounts) is written as exactly the bytes of its type and byte order (little-endian unless big-endian is asked for), the write reports how many bytes it wrote where it reports a count, and reading it back with the same type and byte order gives the same value and consumes exactly those bytes. A value outside its type's range is refused and leaves the stream untouched.",
  ["inputs"], "Every type, every byte order, every value of the 8- and 16-bit types, and for the wider types every value of a boundary alphabet (each byte position with each extreme, all powers of two and neighbours, both signs).",
  "Tests write one or two small values per type; a wrong width, sign or byte order shows only for values with the affected byte set, and out-of-range refusals are hardly sampled.",
  [R, W, F8], [("typed packers over one shared pack routine", W), ("typed unpackers over one shared unpack routine", R)],
  ["bytes in the stream", "returned counts and values", "stream position"])

p("C02", "Variable-length integers, byte strings and texts use the NEO wire format",
  "A non-negative integer below 2^64 is written in the shortest of the 1, 3, 5 and 9 byte NEO forms; byte strings and texts are written as that length prefix (in the byte order asked for, little-endian by default) followed by exactly their bytes in the requested encoding, fixed-size texts as their UTF-8 bytes padded with zeros; reported byte counts equal the bytes written, and reading gives back the value and consumes exactly what was written. Values that cannot be represented (negative or too large integers, non-integers, texts longer than their fixed size or not encodable) are refused with nothing written, and a length above the limit the reader was given is refused.",
  ["inputs"], "All integers up to 70000, every boundary up to 2^64 and beyond; all contents of length 0 and 1, boundary lengths around every change of prefix form, contents that look like hexadecimal, several encodings, all fixed sizes against all text lengths in a small bound, every limit around the length.",
  "Tests sample a few lengths on one side of each boundary; an off-by-one in one prefix threshold, in the limit test, or an unintended reinterpretation of hexadecimal-looking content is invisible to them.",
  [R, W], [("prefix selection by thresholds", W), ("prefix dispatch and limit test", R)], ["bytes in the stream", "returned values and counts"])

p("C03", "Any sequence of writes is read back by the same sequence of reads",
  "For every sequence of write operations into one stream, the stream holds exactly the concatenation of what each operation writes on its own, and reading with the same sequence of types gives back every value in order and ends exactly at the end of the stream. The result does not depend on how many operations were made before or on which readers or writers share the stream.",
  ["histories", "inputs"], "Every ordered sequence of up to 3 operations over an alphabet covering every field kind (with values that provoke each form), every ordered pair followed by the reads, and longer repeated sequences; also reads made between writes on one stream.",
  "Tests write and read one field at a time on a fresh stream, so state carried between operations and misaligned field sizes in combination are never seen.",
  [R, W, U], [("each operation consumes exactly what its partner wrote", R + ", " + W)], ["bytes in the stream", "values read", "stream position"])

p("C04", "Truncated input never yields a wrong fixed-size value or an overrun",
  "When a stream ends inside an encoded field, fixed-width numbers, booleans, floats, amounts, 160/256-bit identifiers, length-prefixed texts, exact-length reads and curve points are refused with an error, and are never returned with made-up content. Fields defined to return what is available (plain byte reads, length-prefixed byte strings, padded texts, and lists of objects, which keep the elements before the damage) return exactly the available prefix, and no read consumes bytes beyond the end or changes the bytes before the cut.",
  ["fault_sequences", "inputs"], "Every field kind with an alphabet of values, cut at every byte position, also with preceding fields and continued reading after the failure.",
  "A test has to pick a cut point; the tests here cover two. Only the enumeration of every cut of every field shows a field that silently accepts a short read.",
  [R, U, EC], [("struct unpacking and exact-length read", R), ("identifier deserialisation", U), ("point deserialisation", EC)], ["exception or value", "stream position"])

p("C05", "Lists of objects and hashes round-trip with count, order and content",
  "A list of serialisable objects or of 32-byte hashes is written as its element count in the variable-length form followed by every element in order (hashes in reversed byte order), and reading gives the same elements in the same order and consumes exactly those bytes; an absent object list is written as an empty one. A count above the reader's limit is refused; the reader returns one element per count, each an independent object.",
  ["inputs", "histories"], "All list lengths 0 to 70 and around 252/253/254, 255/256/257; element alphabets with duplicates, zero, asymmetric and hexadecimal-looking contents; every limit around the length; an element that fails to write or read at every index; arrays of 2000 hash texts.",
  "Tests use one or two short lists with equal elements; a count form change at 253, a shared element instance or a reordering needs particular lists.",
  [R, W], [("count prefix and element loop", W), ("count prefix, class lookup, element loop", R)], ["bytes in the stream", "elements read"])

p("C06", "160- and 256-bit identifiers serialise to their raw bytes",
  "Serialising a 160- or 256-bit identifier writes exactly its 20 or 32 raw bytes, in stored order, whatever those bytes are, through every way of writing one; deserialising them gives an equal identifier and consumes exactly that many bytes. Writing a value of the wrong kind as an identifier is refused with nothing written.",
  ["inputs"], "Every byte position with every byte value over several backgrounds, all constant-byte values, all pairs of positions with boundary values, contents that look like text or hexadecimal except in one byte, both widths, alone, in lists and mixed with other fields.",
  "Tests serialise a handful of values, and one of them even fixes a corrupting path; contents which happen to look like hexadecimal digits need a specific value.",
  [U, U1, U2, W, R], [("serialise / deserialise", U), ("typed read and write", R + ", " + W)], ["bytes in the stream", "identifier read"])

p("C07", "Identifiers and their hexadecimal text correspond one to one",
  "Every 160- or 256-bit identifier prints as the lowercase hexadecimal of its bytes in reversed order (also with a 0x prefix, as bytes, or unreversed where so asked), and parsing such text with or without the prefix and in any letter case gives back an equal identifier. Text of any other length, with characters that are not hexadecimal digits, and byte content of any other length or kind, is refused.",
  ["inputs"], "Every byte position with every byte value, both widths, all letter cases of a digit pair at each position; all text lengths 0 to 70 with and without prefix; every character position replaced by each of an alphabet of invalid characters; all data lengths 0 to 70 and non-byte kinds.",
  "Tests parse two or three literals; a single mishandled position, character or length is not sampled.",
  [U, U1, U2], [("text conversion", U), ("parsing", U1 + ", " + U2)], ["text", "parsed identifier", "exception"])

p("C08", "Identifier equality, order and hash agree, for every history of an object",
  "Identifiers compare as the unsigned little-endian numbers they hold: all comparisons form one strict total order consistent with equality, comparing different widths or foreign objects with an ordering is refused and never equal unless the content is, and equal identifiers have equal hashes and are interchangeable in sets and dictionaries. This stays so after any sequence of constructions, deserialisations (also failed ones, which leave the identifier as it was) and changes of the buffer a caller built it from; no identifier shares storage with another.",
  ["histories", "inputs"], "All pairs of an alphabet of values differing in each single byte position and in opposite directions at two positions; every sequence of up to 4 operations (construct from buffer, mutate buffer, deserialise, failed deserialise, compare, use as key) on two live identifiers.",
  "Tests compare a couple of values; a comparison that skips one byte, or a stale hash or aliased buffer after a particular history, needs the specific pair or sequence.",
  [U], [("comparison from the most significant byte", U), ("cached hash refreshed on deserialise", U), ("copied buffer", U)], ["comparison results", "hash", "set and dict behaviour"],
  [("identifier bytes", "value of the identifier", U), ("cached hash", "hash of the bytes", U)])

p("C09", "8-decimal amounts convert exactly to and from text and decimals",
  "Parsing the decimal text, decimal, integer or float of an amount with at most 8 fractional digits gives exactly that many 1/10^8 units, for either sign; extra fractional digits are cut off, text that is not a finite number gives no amount, and negative amounts are refused where only positive ones are allowed. Printing an amount (also in JSON form, where whole amounts have no trailing .0) gives plain decimal text, without exponent, that denotes exactly the amount and parses back to it.",
  ["inputs"], "All amounts of a structured alphabet (every decimal digit position with every digit, every power of ten and two with neighbours, both signs, up to 28 significant digits for parsing and 2^52 units for printing), every textual form of each, and an alphabet of malformed texts.",
  "Tests convert a few round values; binary rounding damages particular digit patterns only.",
  [F8], [("decimal parsing", F8), ("text output", F8)], ["units", "text", "absence of a value"])

p("C10", "8-decimal amount arithmetic, rounding and comparison are exact",
  "Adding, subtracting, negating, comparing, taking remainders and floor or truncating quotients of amounts act exactly on their integer units for every size and sign, the in-place forms give the same result as the plain forms and never change another amount, and rounding up, down or towards zero to whole units is exact. Constants (one, the smallest unit, its negative, zero) are always the same amounts, whatever was computed before.",
  ["inputs", "histories"], "All pairs of an alphabet of amounts (zero, ±1 unit, around whole amounts, around 2^53 and 2^63, both signs) under every operation, and every sequence of up to 3 in-place operations over a set of shared amounts.",
  "Tests try one pair of small positive amounts per operator; float rounding, sign-dependent rounding and aliasing need big, negative or shared operands.",
  [F8], [("operators on integer units", F8)], ["units of results and of operands"])

p("C11", "Big integer arithmetic is exact and closed",
  "Every arithmetic operation of the big integer type (sum, difference, product, quotient, remainder, negation, absolute value, shifts) equals that of the mathematical integers with floor division, and again yields the big integer type so that its methods stay available; sign, equality and text are those of the number. Operands are never changed and mixed operations with plain integers agree.",
  ["inputs", "histories"], "All pairs of an alphabet of integers (0, ±1, ±2, byte and word boundaries up to 2^520, both signs) under every operation, and all chains of up to 3 operations.",
  "Tests use one pair of small numbers per operator, so sign handling, exactness of big quotients and the result type of rare operators are open.",
  [BI], [("operators re-wrapping the native integer", BI)], ["value and type of results"])

p("C12", "Big integers and their little-endian bytes correspond",
  "The bytes of a big integer are its little-endian two's complement form, with the shortest length for zero and for positive numbers (including the extra sign byte exactly when it is needed) and at most one byte more than the shortest for negative ones; asking for the unsigned form of a positive number never adds a sign byte. Reading the bytes back in the same mode gives the number again, and any byte string, padded or empty, is read as the number it denotes.",
  ["inputs"], "All integers from -70000 to 70000, all ± (2^k + d) for k up to 530 and d in -2..2; all byte strings of length 0 to 2 and a boundary alphabet up to length 34, signed and unsigned.",
  "Tests convert a few numbers; the sign byte matters only at exact powers of two.",
  [BI], [("length computation and sign byte fallback", BI)], ["bytes", "number read back"])

p("C13", "Merkle roots are exactly the protocol's, for every number of leaves",
  "The Merkle root of a non-empty list of 32-byte hashes is obtained by repeatedly pairing neighbours left to right, double-SHA256 hashing each pair's concatenation and pairing an odd last node with itself; a single hash is its own root and an empty list is refused. The built tree has that root, the matching depth, every inner node's hash equal to that of its children, correct parent links, and exactly the given leaves, and building leaves the input list and hashes unchanged.",
  ["inputs"], "Every number of leaves 1 to 70 and around 127-129, 255-257, 511-513, with all-distinct leaves; every assignment of two leaf values up to 8 leaves; every swap of neighbours and single changed leaf.",
  "Tests build two or three trees; the duplicated last node appears at a different level for each number of leaves.",
  [MT], [("level-by-level construction", MT)], ["root hash", "tree structure"])

p("C14", "Trimming a Merkle tree keeps its root and every flagged leaf",
  "Trimming with one flag per leaf keeps the root hash, and keeps exactly those subtrees that contain a flagged leaf: pairs of leaves of which one is flagged stay with both hashes, subtrees without a flagged leaf collapse to their hash; missing flags count as unset. Repeated trims with shrinking or other flags act on what is left in the same way, and every remaining inner node still hashes to its children.",
  ["inputs", "histories"], "Every flag assignment of every tree with 1 to 9 leaves (including every shorter flag list), breadth-first over all trim histories to closure or depth 3 for smaller trees, structured flags for 10 to 33 leaves, several flag values and kinds.",
  "One test trims one tree of four leaves; the flags of a right subtree, odd trees and a second trim are never exercised.",
  [MT], [("recursive trimming by flag ranges", MT)], ["remaining nodes", "root hash", "leaf hashes"],
  [("trimmed tree", "set of inner nodes that still have children", MT)])

p("C15", "Hash, script hash and byte helpers compute the protocol functions",
  "For every message the 160-bit hash is RIPEMD160 of SHA256 and the 256-bit hash is SHA256 of SHA256, in text and byte forms alike; a script hash is the 160-bit hash of the script given raw or as hexadecimal, and a public key's verification script is push-33-bytes, the key, check-signature. The base-256 form of a number is its little-endian bytes padded to the requested width, negatives refused, and exclusive-or of two equally long byte strings is bitwise, other inputs refused.",
  ["inputs"], "All messages of length 0 to 1 and every length 0 to 300 with several contents (hexadecimal-looking ones included), all kinds of input buffer; all numbers to 70000 and boundaries to 2^264 with every width 0 to 40; all byte pairs and every length 0 to 70.",
  "Tests hash one or two literals; a helper that reinterprets hexadecimal-looking or one-byte content, or pads wrongly, needs the specific input.",
  [H, CR], [("hash helpers", H), ("script hash", CR)], ["digests", "bytes"])

p("C16", "Addresses and script hashes correspond one to one; bad addresses are refused",
  "The address of every 20-byte script hash is the Base58Check text of the NEO version byte and the hash, is 34 characters starting with A, is accepted as valid and converts back to the same hash. Any other text (a changed, swapped, missing or added character, a wrong version, length or checksum even when the checksum is right for the rest, a character outside the alphabet) is never accepted as valid, and converting it is refused with the conversion error.",
  ["inputs"], "An alphabet of script hashes (every byte position with boundary values, all constant bytes); for several addresses every substitution at every position by every printable character, all neighbour swaps, deletions and insertions; every version byte; every payload length 0 to 40 with a right checksum.",
  "Tests check a few addresses; acceptance is a statement about all other texts, and the version and length gates only matter for texts with a right checksum.",
  [H, UT, CLI, CR], [("address encoding", H), ("validity test", UT), ("decoding with checksum, version and length gates", CLI)], ["address text", "validity", "decoded hash or refusal"])

p("C17", "WIF export and import are inverse and reject every damaged text",
  "Exporting any private key gives the 52-character Base58Check text of the WIF header, the 32 key bytes and the compression marker, and importing it gives back exactly those key bytes. Any text of another length, or whose header, marker, payload length or checksum is wrong (even when the checksum is right for the rest), is refused.",
  ["inputs"], "An alphabet of keys (leading and trailing zeros, boundaries of the group order, every byte position); for several texts every single-character substitution, neighbour swap, deletion and insertion; every header and marker byte value with right checksum; payload lengths 0 to 45.",
  "Tests import three texts; a checksum compared in part, or header or marker tests that can be bypassed, accept only special damaged texts.",
  [KP], [("export", KP), ("import with length, header, marker and checksum gates", KP)], ["text", "key bytes", "exception"])

p("C18", "NEP-2 encryption follows the standard and yields only the right key",
  "Encrypting a private key with a passphrase gives exactly the NEP-2 text the standard defines (flags, address checksum, scrypt and AES as specified, passphrase in Unicode normal form C), and decrypting it with any canonically equivalent passphrase gives the key back. A different passphrase, a damaged text, another header, flag or length even with a right checksum, or a passphrase that is too short to encrypt with, is refused; a wrong key is never returned.",
  ["inputs"], "Keys by passphrases (ASCII, accents in both normal forms, compatibility characters, astral, NUL, long ones) against an independent implementation with the real key derivation; with a counted stand-in key derivation, all pairs of a passphrase alphabet, every single-character substitution of a text, every header bit, and payload lengths.",
  "Tests check a few vectors; normalisation, header gates and wrong-passphrase detection range over all passphrases and texts.",
  [KP, H], [("encryption", KP), ("decryption with header, checksum and address-hash gates", KP)], ["NEP-2 text", "key bytes", "exception"])

p("C19", "Key pairs derive the right public key, script hash and address",
  "For every private key from 1 to the group order minus 1, a key pair's public key is that multiple of the NIST P-256 base point, its script hash is that of the compressed key, and its address that of the key's verification script; a key given with its public key bytes in the 96 and 104 byte forms gives the same pair. Zero, keys not below the group order and any other length are refused, and neither later changes to the caller's buffer nor other key pairs change it.",
  ["inputs", "histories"], "Private keys 1..64, the order minus 1..64, all powers of two, keys whose public key coordinates have leading zero bytes or either parity; every length 0 to 110; every prefix alphabet of the long forms; several buffer kinds and mutations.",
  "Tests derive a few fixed keys; leading zeros, parity, the range limits and the long forms are where derivations go wrong.",
  [KP, EC, CR], [("curve selection and public key derivation", KP), ("compressed encoding", EC)], ["public key", "script hash", "address"])

p("C20", "Signatures verify exactly for the signed message and key",
  "Signing gives 64 bytes that verify, under the matching public key in each supported form (point, 33-byte compressed, 64-byte raw) and under any correct ECDSA P-256/SHA-256 verifier, for exactly the message bytes that were signed, given as hexadecimal or raw as asked. Verification agrees with the ECDSA definition for every message, signature and key: changing any of them makes it fail, and malformed signatures or keys give a plain negative answer rather than an error.",
  ["inputs"], "Message alphabet (empty, one byte, hexadecimal-looking, long) by key alphabet by key form; every byte position of the signature changed, r and s at 0, 1, order-1, order, swapped, all signature lengths 0 to 70; keys of every length 0 to 70, off-curve and negated keys; against an independent verifier.",
  "Tests verify a few triples; acceptance is a statement about all other triples, and errors appear for particular malformed inputs only.",
  [CR], [("sign", CR), ("verify with key-form dispatch", CR)], ["signature bytes", "verification result"])

p("C21", "Results do not depend on what the process did before",
  "Key derivation, signing, verification, decoding, address, WIF and NEP-2 operations give the same results in a fresh process, after any sequence of other operations of the library, after operations that failed, and after another part of the process selected another elliptic curve in the shared elliptic-curve package.",
  ["histories"], "From a pristine process each: every operation alone, every ordered pair and triple of an operation alphabet (including failing operations and selections of another curve), each result compared with an independent reference.",
  "The tests all run in one process where an earlier test has always selected the right curve; dependence on process history is invisible to them.",
  [CR, KP, EC], [("each operation selects the curve it needs", CR + ", " + KP)], ["results of each operation in the history"],
  [("selected curve", "process-wide parameters of the elliptic-curve package", KP + ", " + CR)])

p("C22", "Public key decoding accepts exactly the encodings of curve points",
  "Encoding a P-256 point compressed or uncompressed gives the SEC1 bytes (parity or 04 prefix, big-endian coordinates of full width; a single zero byte at infinity), and decoding those bytes, from hexadecimal or raw bytes, the compressed form also from a stream, or the longer key forms, gives the point back. Encodings with a coordinate outside the field, not on the curve (except where on-curve checking is switched off or the form carries a private key), with a wrong length or prefix, are refused.",
  ["inputs"], "Points 1..64 times the base, points with leading zero coordinates, both parities, all by all entry points; every prefix byte; every length 0 to 105; x at and beyond the field prime; off-curve y changes at each byte.",
  "Tests decode a few keys; acceptance of bad encodings and leading-zero handling need specific bytes.",
  [EC], [("encoding", EC), ("decoding with length, range and curve gates", EC)], ["point", "bytes", "exception"])

p("C23", "Point equality and order form one consistent total order",
  "Points are equal exactly when both coordinates are, and are ordered by x and then by y; all comparison operators agree with each other and with equality, sorting any collection gives the same sequence, and a point is equal to its decoded encoding however it was obtained.",
  ["inputs"], "All pairs and triples of the points of small curves, all pairs of a P-256 alphabet (multiples, negated points, infinity, decoded copies), all permutations of small sets for sorting.",
  "Tests compare two points with different x; the order of a point and its negative, and consistency among operators, are statements over all pairs.",
  [EC], [("comparison by x then y", EC)], ["comparison results", "sorted order"])

p("C24", "Finite field and curve arithmetic obey the field and group laws",
  "Field operations (also mixed with plain integers on either side, powers, negation, inverse, square root with the requested parity) are those of integers modulo the prime, and point addition, subtraction, negation, scalar multiplication and division are those of the curve's group, for all operands including zero, equal, opposite and infinite points; results lie in the field and on the curve and operands are never changed. The built-in curves have their standard parameters and order.",
  ["inputs"], "Exhaustively: all elements and pairs of fields of small primes; all pairs of points and all scalars on several small curves, associativity on all triples; on the two 256-bit curves an alphabet of scalars and points against an independent implementation.",
  "Tests run a handful of 256-bit computations; special cases (doubling, inverses, infinity, zero negation) never occur there, but all occur on small curves.",
  [EC], [("field", EC), ("curve group law", EC)], ["values", "points"])

p("C25", "The ECDSA toolkit satisfies its algebraic identities",
  "On every curve of prime order, signatures made with any private key, nonce and message verify under the matching public key, and verification agrees with the ECDSA equation for every message, key and signature; the recovery functions return a public key, private key or nonce that is consistent with the given signatures, and equal to the true one for the right choice.",
  ["inputs"], "Exhaustively on small prime-order curves: all private keys, nonces, messages, and all (r, s) pairs; recovery from all signatures and all pairs of signatures with shared nonce; a boundary alphabet on the 256-bit curves.",
  "Tests check one signature on one curve; only small groups let every key, nonce, message and signature be enumerated.",
  [EC], [("sign, verify, recover", EC)], ["signatures", "verification result", "recovered keys"])

p("C26", "Number theory helpers are correct over their whole domain",
  "The extended greatest common divisor returns the divisor and coefficients that satisfy its identity, the modular inverse is an inverse whenever one exists, the modular square root of a non-zero square is a root of it and a non-square has none (reported as such by the general variant), whatever random numbers are drawn, and random integers of a requested size stay within it and can take every value.",
  ["inputs", "schedules"], "All argument pairs up to a bound; every residue of all primes up to a bound, of every class modulo 8; every sequence of random draws of a scripted source up to a bound; all sizes 0 to 64 with extreme source bytes.",
  "Tests call a few of these with one argument; the branch taken depends on the residue class and on the random draws.",
  [EC], [("Euclid, inverse, Lucas sequences, Tonelli variants", EC)], ["returned integers"])

p("C27", "The command line tool converts correctly and reports failures",
  "The command line tool prints, for a valid address, its script hash in all three notations, for a script hash in either byte order its address, and for a new wallet a WIF and the address that belongs to it, made from fresh system randomness; the two conversions are inverse. For any invalid input it prints an error, prints no result for it, and exits with a failure status, and without arguments it shows its usage and fails.",
  ["inputs", "configurations"], "Every subset and order of its options; an alphabet of valid and invalid addresses and script hashes (all damage kinds, all lengths); every entropy of an alphabet for wallets; run in process and, for representative cases, as a real subprocess.",
  "Tests run four command lines; the error paths, option combinations and byte order detection are hardly touched.",
  [CLI], [("option handling", CLI), ("conversion with error gate", CLI)], ["standard output", "exit status"])

p("C28", "Independent objects and concurrent callers do not disturb each other",
  "Operations on separate objects (streams, amounts, identifiers, trees, key pairs, points) give the same results however they are interleaved, by one caller or by several threads, as when each task runs alone.",
  ["schedules", "histories"], "All interleavings at operation granularity of every pair of tasks from a task alphabet; for pairs of real threads all schedules at source-line granularity with up to 1 (quick) or 2 (thorough) preemptions within the stated scheduling-point bound.",
  "Tests run one operation at a time; a scratch buffer or result cached at class or module level is wrong only when two uses overlap.",
  [R, W, U, MT, KP, CR, EC, F8], [("no mutable state shared between objects", "all modules")], ["results of each task"],
  [("shared defaults", "class-level attributes and module globals", "all modules")])

p("C29", "Number helpers and random private keys",
  "Swapping the bytes of a 32-bit number reverses its four bytes (twice gives the number again; other numbers are refused), and the 20 and 32 digit binary texts of a number are its fixed-width binary digits. A random private key is 64 hexadecimal digits made anew for every call from at least 256 bits of the system's randomness, every one of which matters even when the clock and the pseudo-random generator repeat.",
  ["inputs", "configurations"], "Numbers on a boundary alphabet of 32 bits and all of up to 16 (thorough 20) bits; for random keys every single-bit change of the system randomness drawn, over several states of it, and sequences of keys, with clock and pseudo-random generator held fixed.",
  "No test can see that a key depends on fewer random bits than it should, or is reused; the number helpers are called with one value each.",
  [W, H], [("byte swap and binary texts", W), ("random key", H)], ["returned numbers and texts", "system randomness drawn"])

p("C30", "Operations leave their arguments alone and their results belong to the caller",
  "No operation of the library changes the buffers, lists, identifiers, amounts, points or numbers it is given, in-place operators included (which only rebind the name); the same operation on the same objects gives the same result again, and after a caller changed the content of its buffer or list the result is that of the new content. A result is not changed by later changes to the arguments or to other results, and overwriting a result never changes later results.",
  ["histories", "inputs"], "Every operation of the public interface with mutable arguments or results, two contents each: repeated on the same objects, arguments and results overwritten in between; every ordered pair of operations that take the same kind of argument, on the same objects.",
  "Tests pass each argument once and look at the result only; a buffer reversed in place, a shared result buffer or a memo keyed by object shows at the second use.",
  [R, W, U, MT, KP, CR, EC, F8, BI, H], [("copies made before buffers are reversed or extended", "all modules")], ["content of arguments and results before and after"])

p("C31", "Results do not depend on how many other values were processed before",
  "Every operation gives, for a value asked again, the same correct result however many other values (hundreds to thousands) were processed in the meantime, and every result handed out stays what it was while later ones are made: nothing is remembered under a key that two values share, evicted wrongly, or kept in a buffer that is used again.",
  ["histories"], "Every operation of the public interface, alone in a fresh process, over crowds of up to about a thousand (thorough: four thousand) distinct values in up to three patterns (counting from below, differing in the high end only, spread), each earlier value asked again at every distance up to 8 and around every power of two and round number to 1025, all asked again at the end and all kept results compared at the end.",
  "A test asks for a handful of values; a cache that collides, overflows or recycles its slots is wrong only after as many distinct values as it has room for.",
  [R, W, U, MT, KP, CR, EC, F8, BI, H], [("results computed from arguments only, nothing remembered", "all modules")], ["returned values, at once and at the end"])

p("C32", "Every chain of conversions between forms of a value keeps the value",
  "Identifiers, keys, amounts and integers have several forms (objects, raw bytes, hexadecimal text in either order, wire bytes, addresses, WIF, NEP-2, points, scripts, decimals). What one operation produces in a form is accepted, exactly as it was returned, by every operation that takes that form, and along every chain of conversions the value stays the same: every way from one form to another gives the same result.",
  ["programs", "inputs"], "For values of boundary alphabets of each kind, the graph of forms and conversions is explored to closure over (form, Python type), and all walks up to length 3 to 6 (by kind; thorough one or two more) are executed, every intermediate result compared with the form's reference.",
  "Tests convert one way, from literals; a result that is right by itself but of a kind, case or byte order the next operation misreads shows only in a chain.",
  [R, W, U, KP, CR, EC, F8, BI, H, CLI], [("conversions between forms", "all modules")], ["result of every step"])

p("C33", "Failures of the underlying stream are passed on",
  "When the stream under a binary reader or writer fails (an I/O error or an interruption of the caller) while a field is written or read, at whatever byte of it, the failure reaches the caller instead of being taken for a success or a value, at most a beginning of the field has been written, and once the stream works again the same operation on the same reader or writer gives the right result. Left open: a failing read of a single byte, which is documented to give 0, and lists of objects.",
  ["fault_sequences", "inputs"], "Every field kind of the writer and reader on an alphabet of values, alone and behind other fields, with the stream failing at every byte of the field (I/O error and interruption), then repeated with the stream in order.",
  "No test makes a stream fail; an exception handler that is too broad turns a full disk into silently missing bytes.",
  [R, W], [("exceptions of the stream propagate through pack and unpack routines", W + ', ' + R)], ["exceptions", "bytes in the stream", "result of the repeated operation"])

p("C34", "Signature nonces are never shared, related or predictable",
  "Every signature uses its own nonce: no two signatures of different messages, or by different keys, share a nonce (or its negative), nonces do not differ by small or repeated amounts, and none is small, the message digest, the key or another value simply derived from them, also when processes start with the same clock, process number and pseudo-random state. (A shared or guessable nonce discloses the private key.)",
  ["histories", "configurations"], "Sequences of related messages (prefixes, suffixes, single-bit changes, counters) under each of an alphabet of keys, one message under many keys and their negatives, and first signatures of fresh processes with equal clock, process number and pseudo-random state; the nonce of every signature is recovered with the known key and compared with all others.",
  "Tests check that signatures verify, which they do whatever the nonce is.",
  [CR, KP], [("nonce derivation per message and key", CR)], ["signatures"])

p("C35", "Hostile input costs no more than the data that is there",
  "Every reader operation and every text or byte decoder ends, with a result or an exception, after work and memory proportional to the data actually supplied (plus a constant): a count or length prefix, an exponent or a caller's length that claims more than there is causes no loop, allocation or read beyond the data, nothing is read twice, the end of the stream is not asked for over and over; a text that is no encrypted key by its length, characters or check sum costs no key derivation; and for honest input work grows no faster than the number of elements. Left open: lists of objects whose own reading never fails at the end of the data, and the cost within single C-level operations.",
  ["inputs"], "Every reading operation and list element class on every count from 0 to 39 and around every power of two up to 2^64 in every encoding, over amounts of data from nothing to 1000 bytes; every decoder on texts of every third length up to 140 and selected ones up to 100000 characters of 22 kinds; amounts with exponents to 10^18; every one-character damage of an encrypted key; honest inputs of growing size.",
  "A test waits for an answer on well-formed short data; a loop over a claimed count or a buffer of the claimed size only hurts when somebody lies about it.",
  [R, U, MT, KP, EC, F8, CLI, 'neocore/Utils.py'], [("counts and lengths taken from the stream", R), ("length checks before decoding", KP + ", neocore/Utils.py, " + CLI)], ["interpreter events", "peak memory", "reads of the stream", "key derivations"])

p("C36", "Results do not depend on the process environment",
  "The library imports, gives the same results and refuses the same inputs whatever process it runs in: with assertions, docstrings or unused interpreter parts switched off (-O, -OO, -I), warnings as errors, development mode, any hash seed, locale, time zone, encoding or UTF-8 mode, decimal context, garbage collector, tracing, recursion limit or integer-digit setting, closed or restricted standard streams, a seeded pseudo-random generator, in a thread, a small-stack thread, a forked child, an event loop or an exception handler, and whichever of its modules or of the libraries it uses is imported first.",
  ["configurations", "inputs"], "About 65 settings, each alone and all compatible pairs of 16 (thorough: of all), each in a fresh process that runs a slice of every operation, answers and about 180 refusals; every module imported first, with and without assertions, and ordered pairs of modules.",
  "The tests run in one process with one set of options; validation written as an assertion, a comparison by identity or a result that depends on the decimal context holds there.",
  [R, W, U, MT, KP, CR, EC, F8, BI, H, CLI], [("refusals raised, not asserted", "all modules"), ("arithmetic in a context of its own", F8)], ["results and refusals in each process"])

p("C37", "Readers and writers behave alike on every kind of binary stream",
  "A binary reader or writer gives and takes exactly the same bytes and values on every binary stream with a read or write method: memory streams and classes derived from them (also with a read or write of their own, empty, or of length zero), buffered and unbuffered files, temporary, compressed and archived files, memory maps, pipes and sockets, and objects with nothing but read or write. It asks only for the bytes of the field (nothing is read ahead, a complete field never waits for more), holds nothing back, keeps no place of its own: several readers and writers, the caller's own reads, writes and seeks on the same stream, and data that arrives in pieces, give the same result. A field cut short has the same outcome on every kind.",
  ["inputs", "schedules", "configurations"], "Every field kind on about 20 kinds of sinks and 20 kinds of sources, alone and before every other; every cut; all schedules of 4 (thorough: 5) operations over two readers or writers and the stream itself; all ways a field arrives in two or three pieces through four buffer sizes; byte strings up to 128 kB (thorough: 1 MB).",
  "Every test uses a fresh in-memory stream; a shortcut through the buffer of a memory stream, a read ahead or a position asked for shows only on another stream or with a second user of it.",
  [R, W], [("all access through stream.read and stream.write", R + ", " + W)], ["bytes in the sink", "values read", "bytes left in the source", "requests to the stream"])

p("C38", "Copies, pickles and objects of derived classes behave as the original",
  "A shallow or deep copy of a value (identifier, amount, big integer, key pair, curve point, field value, curve, signature toolkit, Merkle tree, reader, writer), or its pickle (protocol 2 or later) taken up in this or another process, is of the same class and behaves exactly as the original: every operation gives the same, it equals the original wherever the original equals itself, has the same hash, is found in sets and dictionaries, and both can be mixed in operations, whatever was done with either before. Changing a deep copy (or an attribute of a shallow one) leaves the original as it was and the other way round. Instances of a derived class behave as those of the class, keep their own attributes when copied, and mix with them. Left open: writing an identifier of a derived class as a plain one, and order comparisons that do not end between a plain value and one of a derived class.",
  ["histories", "inputs"], "14 kinds of values with up to 9 values each: 11 ways of copying, alone and in chains of two, used before or not, plain and derived; every change to either of the two; all operations between copy, original and every other value; taken up by fresh processes that begin with different operations.",
  "No test copies or pickles a value or derives a class; a remembered hash, an identity comparison or an attribute left out of the state shows only there.",
  [U, F8, BI, KP, EC, MT, R, W, CR], [("plain attributes as the only state; comparison by content", "all modules")], ["results of all operations on copy and original"])

p("C39", "An operation that is refused changes nothing",
  "When an operation raises an exception, for whatever argument (of the wrong kind, range, length or content, missing or surplus), the objects it was asked of and given, and the content of a stream (for a single value written, also its position) are as before; asked again it raises again, in the same way; and every later operation, in the process or on the same object, reader or writer, gives the right result. An identifier read into from too short a stream keeps its content. Left open: the place of a stream after a refused read, and the beginning of a text, byte string or list of an unsuitable kind that was written before its content was refused.",
  ["histories", "inputs"], "Every function of the interface with each argument replaced by each of 12 unsuitable ones, and about 170 refusals of well-formed but invalid values, each followed by a slice of every operation in the same fresh process; about 600 refused operators and methods on every kind of value, once, twice and behind others; refused reads and writes between fields of every kind; all ordered pairs of refusals.",
  "Tests check that an exception is raised and stop there; a value changed before it is checked, a lock not released or a failure remembered shows in what comes after.",
  [R, W, U, MT, KP, CR, EC, F8, BI, H, CLI], [("checks before changes", "all modules")], ["content of objects and streams after a refusal", "results of later operations"])

p("C40", "An operation broken off anywhere leaves nothing behind",
  "When an operation is broken off by an exception that is none of its own (an interruption by the user or by a timeout), at whatever point, the exception reaches the caller, is not swallowed or turned into an answer, and nothing half done stays behind: every later operation, of the same kind or another, in the process or on the same objects, gives the right result, and the values given to or asked by the operation have the content they had. The value which the operation was changing (an identifier read into, a tree being trimmed, a stream being written) is right after the operation has been done again.",
  ["fault_points", "histories"], "Every operation of the interface, broken off before each line executed and at each return of a function of the library and of the Python libraries it calls (first, second and last occurrence), in a process of its own, followed by the same operation and a sentinel of all operations; the operators and methods of every kind of value, and reads and writes of every kind of field, the same way.",
  "No test interrupts anything; a temporary change without clean-up, a placeholder in a cache, a lock not released or a handler catching everything only show when something breaks off in just that place.",
  [R, W, U, MT, KP, CR, EC, F8, BI, H, CLI], [("no unguarded temporary changes", "all modules")], ["the exception at the caller", "results of later operations", "content of values after the break"])

p("C41", "Private keys and passphrases come out nowhere but in the results",
  "Making key pairs, importing and exporting WIF and NEP-2, deriving addresses, signing, verifying and the command line never put a private key, a passphrase, a signing nonce or an encoded private key anywhere but into the value or answer asked for: not into log records, standard output or error, warnings, messages and attributes of exceptions raised (for suitable or unsuitable arguments, or when a step beneath fails), the text of an object, files, environment variables, arguments of processes or connections.",
  ["inputs", "fault_points"], "All operations on secrets with several keys and phrases, all unsuitable arguments of the interface in place of and next to the secrets (damaged WIF and NEP-2 texts, wrong phrases, wrong lengths and kinds), each with logging at every level, standard streams and an audit hook watched; an exception raised at every line of every operation on secrets.",
  "A test looks at what is returned; that a key also shows in a debug record or in the message of an exception for one kind of bad input is visible only to someone who looks there, for every path.",
  [KP, CR, CLI, EC], [("no secrets in messages", KP), ("no logging of keys", CR)], ["log records", "standard output and error", "warnings", "exceptions", "files, environment, processes"])

p("C42", "The library leaves the rest of the process as it found it",
  "Importing the library and its operations, successful, refused or broken off, change nothing in the process that is not theirs: decimal context, locale, warning filters, recursion and conversion limits, signal handlers, environment, working directory, umask, module search path, root logger and existing loggers, standard streams, state of the random module (other than its position), garbage collector settings, threads, and the functions, classes and constants of other modules; whether these have their usual or other values. Excepted are the curve parameters of the third-party package bitcoin, set where documented.",
  ["inputs", "histories", "fault_points"], "Every operation of the interface, every kind of command, about 170 refusals, each compared before and after in a fresh process with usual and unusual settings; each operation broken off at its lines; the import of every module, alone, in processes with usual and unusual settings.",
  "Tests of the library cannot notice what it does to the application around it; a precision set and not put back is right for every test and wrong for the caller's own sums.",
  [R, W, U, MT, KP, CR, EC, F8, BI, H, CLI], [("decimal context", F8), ("process state", "all modules")], ["state of the process before and after"])

p("C43", "An operation run in the middle of another one disturbs neither",
  "When an operation is run while another one of the same thread is under way (by a signal handler, a finaliser, or from within the reading, writing or conversion of a stream, an element of a list or a leaf of a tree handed to the library), both end, both give the result they give alone, and so do later ones; on the same value (operations that do not change it) and on others. Lists of objects that themselves hold lists are read and written as such.",
  ["schedules", "histories"], "Every conversion with the same one of another and of the same value and all the others run within it at every line and function end (first, second, last time), as the first thing of a process and not; every operation of every kind of value with all the others of that value within it; every kind of field with every third other within the calls of its stream; trees and lists whose members build trees and lists, up to five; objects three levels deep.",
  "Tests run one thing after the other, and a test with threads does not see a buffer of the thread used twice, or a lock waiting for itself.",
  [R, W, U, MT, KP, CR, EC, F8, BI, H], [("no state of an operation outside its frame", "all modules")], ["results of both operations", "results of later operations"])

p("C44", "The kind of container an argument comes in never changes a result",
  "Equal content gives an equal result, whatever kind it comes in: bytes, bytearray, a view of (part of) a buffer, classes derived from these and from str, int and list, lists and tuples, int and BigInteger; alone, in any combination of arguments, and after calls with equal content of another kind. What is not accepted is refused; it is never taken for other content. Bytes and bytearray are accepted alike. (An identifier made of a class derived from bytes, WriteByte of other kinds and the validity of an address given as bytes are left open.)",
  ["inputs", "histories"], "Every operation on byte strings, texts, lists and numbers with each argument, and each two, in 9, 2, 7 and 4 kinds; all conversions with values of every pattern in four kinds; about 40 functions of numbers for 21 numbers in every kind and every ordered pair of kinds in a fresh process.",
  "Tests give each function one kind of argument, so a shortcut for another kind, or a cache that takes equal values of different kinds for the same, is never entered.",
  [R, W, U, MT, KP, CR, EC, F8, BI, H], [("branches on the kind of an argument", "all modules")], ["results"])

p("C45", "The size of a value changes nothing about its result",
  "Values of every order of size (byte strings, texts, messages and lists from nothing to millions of bytes or tens of thousands of elements, numbers of thousands of bits) are hashed, written, read, signed, verified, converted, added up and built into trees exactly as small ones are: every byte, element and bit counts, wherever it stands, and one byte too few, or over a limit, is noticed at every size.",
  ["inputs"], "Sizes around every power of two and ten and their multiples: hashes up to 4 MiB, fields of streams up to 2 MiB, messages up to 1 MiB with changes in up to eight places, numbers up to 32768 bits, lists and trees up to 65537 elements, multiples of points by up to 2048 bits.",
  "Tests use values of a few dozen bytes; working in pieces, a fast path or a buffer for large values goes wrong only beyond its size, often only at its edge or end.",
  [R, W, U, MT, CR, EC, F8, BI, H], [("work in pieces", "all modules")], ["results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
