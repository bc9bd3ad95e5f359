invariant asn1.ASNReader.data: v != nil

define W(w, s) = buf(w) == cat(old(buf(w)), s)
define STRB(s) = cat(LEN(len(s)), s)

// length octets: number of octets they occupy and the length they denote
define LENOK(r) = len(r) >= 1 && (at(r,0) <= 128 || (at(r,0) <= 132 && len(r) > at(r,0) - 128))
define LENN(r) = ite(at(r,0) <= 128, 1, at(r,0) - 127)
define LENV(r) = ite(at(r,0) < 128, at(r,0), ite(at(r,0) == 128, 0-1, ite(at(r,0) == 129, at(r,1), ite(at(r,0) == 130, at(r,1)*256+at(r,2), ite(at(r,0) == 131, at(r,1)*65536+at(r,2)*256+at(r,3), at(r,1)*16777216+at(r,2)*65536+at(r,3)*256+at(r,4))))))
define TAGGED(r, tag) = len(r) >= 2 && at(r,0) == tag && LENOK(drop(r,1))
define TLEN(r) = LENV(drop(r,1))
define THDR(r) = 1 + LENN(drop(r,1))

// ---------------------------------------------------------------- writer

spec asn1.NewASNWriter () (w)
behavior main
prop C02 C12
modifies nothing
ensures isfresh(w) && buf(w) == empty()

spec asn1.(*ASNWriter).Len (w) (n)
behavior main
prop C12
modifies nothing
ensures n == len(buf(w))
ensures n < 1099511627776

spec asn1.(*ASNWriter).Read (w, p) (n, err)
behavior main
prop C12 C22
modifies buf(w), content(p)
ensures imp(old(len(buf(w))) == 0, n == 0)
ensures imp(len(p) >= old(len(buf(w))), n == old(len(buf(w))) && take(content(p), n) == old(buf(w)))

spec asn1.(*ASNWriter).WriteByte (w, b) (err)
behavior main
prop C02 C03
modifies buf(w)
ensures W(w, unit(b))
ensures err == nil

spec asn1.(*ASNWriter).WriteInt64Tag (w, i, tag) (err)
behavior main
prop C01
modifies buf(w)
ensures W(w, cat(unit(tag), INTB(i)))
ensures err == nil

spec asn1.(*ASNWriter).WriteInt64 (w, i) (err)
behavior main
prop C01
modifies buf(w)
ensures W(w, cat(unit(2), INTB(i)))
ensures err == nil

spec asn1.(*ASNWriter).WriteIntTag (w, i, tag) (err)
behavior main
prop C01
requires 0 - 2147483648 <= i && i <= 2147483647
modifies buf(w)
ensures W(w, cat(unit(tag), INTB(i)))
ensures err == nil

spec asn1.(*ASNWriter).WriteInt (w, i) (err)
behavior main
prop C01
requires 0 - 2147483648 <= i && i <= 2147483647
modifies buf(w)
ensures W(w, cat(unit(2), INTB(i)))
ensures err == nil

spec asn1.(*ASNWriter).WriteEnum (w, i) (err)
behavior main
prop C01
requires 0 - 2147483648 <= i && i <= 2147483647
modifies buf(w)
ensures W(w, cat(unit(10), INTB(i)))
ensures err == nil

spec asn1.(*ASNWriter).WriteBoolean (w, b) (err)
behavior main
prop C03
modifies buf(w)
ensures W(w, unit(1, 1, ite(b, 255, 0)))
ensures err == nil

spec asn1.(*ASNWriter).writeLength (w, n) (err)
behavior main
prop C02
requires 0 <= n && n < 4294967296
modifies buf(w)
ensures W(w, LEN(n))
ensures err == nil

spec asn1.(*ASNWriter).WriteString (w, s) (err)
behavior main
prop C03 C02
requires len(s) < 4294967296
modifies buf(w)
ensures W(w, cat(unit(12), STRB(s)))
ensures err == nil

spec asn1.(*ASNWriter).writeUntagBuffer (w, b) (err)
behavior main
prop C03 C02
requires len(b) < 4294967296
modifies buf(w)
ensures W(w, STRB(content(b)))
ensures err == nil

spec asn1.(*ASNWriter).WriteBuffer (w, b, tag) (err)
behavior main
prop C03 C02
requires len(b) < 4294967296
modifies buf(w)
ensures W(w, cat(unit(tag), STRB(content(b))))
ensures err == nil

spec asn1.(*ASNWriter).StartSequence (w, tag) (err)
behavior main
prop C02 C12
modifies buf(w)
ensures W(w, unit(tag, 128))
ensures err == nil

spec asn1.(*ASNWriter).EndSequence (w) (err)
behavior main
prop C02 C12
modifies buf(w)
ensures W(w, unit(0, 0))
ensures err == nil

// ---------------------------------------------------------------- reader

spec asn1.NewASNReader (p) (a)
behavior main
prop C07
modifies nothing
returns a fresh(data)
ensures rest(a) == content(p)
ensures a.startingOffset == 0 && a.len == len(p)

spec asn1.(*ASNReader).Len (a) (n)
behavior main
prop C07
modifies nothing
ensures n == len(rest(a))

spec asn1.(*ASNReader).TopOffset (a) (n)
behavior any
modifies nothing
behavior main
prop C07
explicit
requires 0 <= a.startingOffset && a.startingOffset < 1099511627776
requires 0 <= a.len && a.len < 1099511627776
modifies nothing
ensures n == a.startingOffset + a.len - len(rest(a))

spec asn1.(*ASNReader).ReadByte (a) (b, err)
behavior wire
ghost x uint8, t seq
match rest(a) == cat(unit(x), t)
modifies rest(a)
ensures b == x
ensures err == nil
ensures rest(a) == t
behavior main
prop C05
modifies rest(a)
returns err nil | fresh
ensures iff(err == nil, len(old(rest(a))) > 0)
ensures imp(err == nil, b == at(old(rest(a)), 0) && rest(a) == drop(old(rest(a)), 1))
ensures imp(err != nil, rest(a) == old(rest(a)))

spec asn1.(*ASNReader).ReadLength (a) (n, err)
behavior wire
prop C02
ghost k int, t seq
match rest(a) == cat(LEN(k), t)
requires 0 <= k && k < 4294967296
modifies rest(a)
ensures n == k
ensures err == nil
ensures rest(a) == t
behavior main
prop C02 C05
modifies rest(a)
returns err nil | fresh
ensures iff(err == nil, LENOK(old(rest(a))))
ensures imp(err == nil, n == LENV(old(rest(a))))
ensures imp(err == nil, rest(a) == drop(old(rest(a)), LENN(old(rest(a)))))
ensures len(rest(a)) <= len(old(rest(a)))

spec asn1.(*ASNReader).Peek (a) (b, err)
behavior main
prop C05
modifies fields(a.data)
returns err nil | fresh
ensures iff(err == nil, len(old(rest(a))) > 0)
ensures imp(err == nil, b == at(old(rest(a)), 0))
ensures rest(a) == old(rest(a))

spec asn1.(*ASNReader).CheckSequenceEnd (a) (end, err)
behavior main
prop C07 C09
modifies rest(a)
returns err nil | fresh
ensures iff(err != nil, len(old(rest(a))) == 1 && at(old(rest(a)),0) == 0)
ensures iff(end, len(old(rest(a))) == 0 || (len(old(rest(a))) >= 2 && at(old(rest(a)),0) == 0 && at(old(rest(a)),1) == 0))
ensures imp(end && len(old(rest(a))) == 0, rest(a) == old(rest(a)))
ensures imp(end && len(old(rest(a))) > 0, rest(a) == drop(old(rest(a)), 2))
ensures imp(!end && err == nil, rest(a) == old(rest(a)))
ensures len(rest(a)) <= len(old(rest(a)))

spec asn1.(*ASNReader).ReadSequenceEnd (a) (err)
behavior main
prop C07
modifies rest(a)
returns err nil | fresh
ensures iff(err == nil, len(old(rest(a))) == 0 || (len(old(rest(a))) >= 2 && at(old(rest(a)),0) == 0 && at(old(rest(a)),1) == 0))
ensures imp(err == nil && len(old(rest(a))) == 0, rest(a) == old(rest(a)))
ensures imp(err == nil && len(old(rest(a))) > 0, rest(a) == drop(old(rest(a)), 2))
ensures len(rest(a)) <= len(old(rest(a)))

spec asn1.(*ASNReader).NewReader (a, length) (res, err)
behavior main
prop C07
requires length < 4294967296
modifies rest(a)
returns err nil | fresh
returns res nil | fresh(data)
ensures iff(err == nil, res != nil)
ensures iff(err == nil, length <= 0 || len(old(rest(a))) > 0)
ensures imp(length <= 0, rest(res) == empty() && rest(a) == old(rest(a)) && res.len == 0)
ensures imp(0 < length && length <= len(old(rest(a))), rest(res) == take(old(rest(a)), length) && rest(a) == drop(old(rest(a)), length))
ensures imp(err == nil && length > 0, res.len == length && len(rest(res)) == length)
ensures len(rest(a)) <= len(old(rest(a)))
behavior offsets
prop C07
explicit
requires length < 4294967296
requires 0 <= a.startingOffset && a.startingOffset < 1099511627776
requires 0 <= a.len && a.len < 1099511627776
modifies rest(a)
uses main
returns res nil | fresh(data)
ensures imp(err == nil, res.startingOffset == a.startingOffset + a.len - len(old(rest(a))))
ensures imp(err == nil, res.len == len(rest(res)))

spec asn1.(*ASNReader).ReadBoolean (a) (v, err)
behavior wire
prop C03
ghost x bool, t seq
match rest(a) == cat(unit(1, 1, ite(x, 255, 0)), t)
modifies rest(a)
ensures v == x
ensures err == nil
ensures rest(a) == t
behavior main
prop C05
modifies rest(a)
returns err nil | fresh
ensures iff(err == nil, TAGGED(old(rest(a)), 1) && TLEN(old(rest(a))) == 1 && len(old(rest(a))) > THDR(old(rest(a))))
ensures imp(err == nil, rest(a) == drop(old(rest(a)), THDR(old(rest(a))) + 1))
ensures imp(err == nil, iff(v, at(drop(old(rest(a)), THDR(old(rest(a)))), 0) != 0))
ensures len(rest(a)) <= len(old(rest(a)))

spec asn1.(*ASNReader).ReadInt (a) (v, err)
behavior wire
prop C01
ghost i int, t seq
match rest(a) == cat(unit(2), INTB(i), t)
requires 0 - 2147483648 <= i && i <= 2147483647
modifies rest(a)
ensures v == i
ensures err == nil
ensures rest(a) == t
behavior main
prop C05
modifies rest(a)
returns err nil | fresh
ensures iff(err == nil, TAGGED(old(rest(a)), 2) && 1 <= TLEN(old(rest(a))) && TLEN(old(rest(a))) <= 4 && len(old(rest(a))) >= THDR(old(rest(a))) + TLEN(old(rest(a))))
ensures imp(err == nil, rest(a) == drop(old(rest(a)), THDR(old(rest(a))) + TLEN(old(rest(a)))))
ensures len(rest(a)) <= len(old(rest(a)))

spec asn1.(*ASNReader).ReadInt64 (a) (v, err)
behavior wire
prop C01
ghost i int64, t seq
match rest(a) == cat(unit(2), INTB(i), t)
modifies rest(a)
ensures v == i
ensures err == nil
ensures rest(a) == t
behavior main
prop C05
modifies rest(a)
returns err nil | fresh
ensures iff(err == nil, TAGGED(old(rest(a)), 2) && 1 <= TLEN(old(rest(a))) && TLEN(old(rest(a))) <= 8 && len(old(rest(a))) >= THDR(old(rest(a))) + TLEN(old(rest(a))))
ensures imp(err == nil, rest(a) == drop(old(rest(a)), THDR(old(rest(a))) + TLEN(old(rest(a)))))
ensures len(rest(a)) <= len(old(rest(a)))

spec asn1.(*ASNReader).ReadIndifiniteLengthData (a) (b, err)
behavior main
prop C05 C09
modifies rest(a)
returns err nil | fresh
returns b fresh
ensures b != nil
ensures imp(err == nil, content(b) == take(old(rest(a)), len(b)))
ensures imp(err == nil, len(rest(a)) == 0 || (at(drop(old(rest(a)), len(b)), 0) == 0 && at(drop(old(rest(a)), len(b)), 1) == 0))
ensures len(rest(a)) + len(b) <= len(old(rest(a)))
loop vars b []uint8
def content(b) == take(old(rest(a)), len(b))
def rest(a) == drop(old(rest(a)), len(b))

spec asn1.(*ASNReader).readStringBuffer (a) (b, err)
behavior wire
ghost s seq, t seq
match rest(a) == cat(LEN(len(s)), s, t)
requires len(s) < 4294967296
modifies rest(a)
ensures content(b) == s
ensures err == nil
ensures rest(a) == t
returns b nil | fresh
loop vars b []uint8, i int
def content(b) == cat(take(s, i), zeros(len(s) - i))
def rest(a) == cat(drop(s, i), t)
behavior main
prop C05
modifies rest(a)
returns err nil | fresh
returns b nil | fresh
ensures imp(err == nil, LENOK(old(rest(a))) && len(old(rest(a))) >= LENN(old(rest(a))) + LENV(old(rest(a))))
ensures imp(err == nil && LENV(old(rest(a))) >= 0, content(b) == take(drop(old(rest(a)), LENN(old(rest(a)))), LENV(old(rest(a)))))
ensures imp(err == nil && LENV(old(rest(a))) >= 0, rest(a) == drop(drop(old(rest(a)), LENN(old(rest(a)))), LENV(old(rest(a)))))
ensures imp(LENOK(old(rest(a))) && LENV(old(rest(a))) >= 0 && len(old(rest(a))) >= LENN(old(rest(a))) + LENV(old(rest(a))), err == nil)
ensures imp(err == nil, len(rest(a)) + len(b) <= len(old(rest(a))))
ensures len(rest(a)) <= len(old(rest(a)))
loop vars b []uint8, i int
def content(b) == cat(take(drop(old(rest(a)), LENN(old(rest(a)))), i), zeros(len(b) - i))
def rest(a) == drop(drop(old(rest(a)), LENN(old(rest(a)))), i)

spec asn1.(*ASNReader).ReadString (a) (v, err)
behavior wire
prop C03
ghost s seq, t seq
match rest(a) == cat(unit(12), LEN(len(s)), s, t)
requires len(s) < 4294967296
modifies rest(a)
ensures v == s
ensures err == nil
ensures rest(a) == t
behavior main
prop C05
modifies rest(a)
returns err nil | fresh
ensures imp(err == nil, TAGGED(old(rest(a)), 12) && len(old(rest(a))) >= THDR(old(rest(a))) + TLEN(old(rest(a))))
ensures imp(err == nil && TLEN(old(rest(a))) >= 0, len(v) == TLEN(old(rest(a))))
ensures imp(err == nil, len(rest(a)) + len(v) <= len(old(rest(a))))
ensures len(rest(a)) <= len(old(rest(a)))

spec asn1.(*ASNReader).ReadBitString (a) (b, err)
behavior wire
prop C03
ghost s seq, t seq
match rest(a) == cat(unit(3), LEN(len(s)), s, t)
requires len(s) < 4294967296
modifies rest(a)
ensures content(b) == s
ensures err == nil
ensures rest(a) == t
returns b nil | fresh
behavior main
prop C05
modifies rest(a)
returns err nil | fresh
returns b nil | fresh
ensures imp(err == nil, TAGGED(old(rest(a)), 3) && len(old(rest(a))) >= THDR(old(rest(a))) + TLEN(old(rest(a))))
ensures imp(err == nil && TLEN(old(rest(a))) >= 0, len(b) == TLEN(old(rest(a))))
ensures imp(err == nil, len(rest(a)) + len(b) <= len(old(rest(a))))
ensures len(rest(a)) <= len(old(rest(a)))

define NONNEG(s) = forall(k, 0, len(s), 0 <= at(s, k))

spec asn1.(*ASNWriter).WriteRelativeOID (w, oid) (err)
behavior main
prop C04
requires NONNEG(content(oid))
requires len(OIDF(content(oid))) < 4294967296
modifies buf(w)
ensures W(w, cat(unit(13), STRB(OIDF(content(oid)))))
ensures err == nil
loop outer vars b []uint8, i int
def content(b) == OIDF(take(content(oid), i))

spec asn1.(*ASNReader).ReadOID (a, tag) (oid, err)
behavior wire
prop C04
ghost xs seq32, t seq
match rest(a) == cat(unit(tag), LEN(len(OIDF(xs))), OIDF(xs), t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967296
modifies rest(a)
returns oid nil | fresh
ensures content(oid) == xs
ensures err == nil
ensures rest(a) == t
loop vars o asn1.RelativeOID, v int32, i int
cutwhen v == 0
inv v == 0
inv len(o) <= len(xs)
def content(o) == take(xs, len(o))
def i == len(OIDF(take(xs, len(o))))
behavior main
prop C05
modifies rest(a)
returns err nil | fresh
returns oid nil | fresh
ensures imp(err == nil, TAGGED(old(rest(a)), tag) && len(old(rest(a))) >= THDR(old(rest(a))) + TLEN(old(rest(a))))
ensures imp(err == nil, len(rest(a)) + len(oid) <= len(old(rest(a))))
ensures len(rest(a)) <= len(old(rest(a)))
loop vars o asn1.RelativeOID, i int
inv len(o) <= i

spec asn1.(*ASNReader).ReadSequenceStart (a, tag) (n, res, err)
behavior indefinite
prop C07
ghost t seq
match rest(a) == cat(unit(tag, 128), t)
modifies rest(a)
returns res a
ensures n == 0 - 1
ensures err == nil
ensures rest(a) == t
behavior main
prop C07
modifies rest(a)
returns err nil | fresh
returns res nil | a | fresh(data)
ensures imp(err == nil, TAGGED(old(rest(a)), tag) && n == TLEN(old(rest(a))))
ensures imp(TAGGED(old(rest(a)), tag) && TLEN(old(rest(a))) <= 0, err == nil)
ensures imp(TAGGED(old(rest(a)), tag) && TLEN(old(rest(a))) + THDR(old(rest(a))) <= len(old(rest(a))), err == nil)
ensures imp(err == nil && n < 0, res == a && rest(a) == drop(old(rest(a)), THDR(old(rest(a)))))
ensures imp(err == nil && n == 0, rest(a) == drop(old(rest(a)), THDR(old(rest(a)))) && rest(res) == empty())
ensures imp(err == nil && n > 0 && n + THDR(old(rest(a))) <= len(old(rest(a))), rest(res) == take(drop(old(rest(a)), THDR(old(rest(a)))), n))
ensures imp(err == nil && n > 0 && n + THDR(old(rest(a))) <= len(old(rest(a))), rest(a) == drop(drop(old(rest(a)), THDR(old(rest(a)))), n))
ensures imp(err == nil, res != nil)
ensures imp(err == nil && n >= 0, res != a)
ensures len(rest(a)) <= len(old(rest(a)))
ensures imp(err == nil, len(rest(a)) < len(old(rest(a))))

spec asn1.ghostReal (w, x, tail) (y, err, a)
behavior main
prop C06
mode mixed
inline *
unroll 64
modifies buf(w)
ensures err == nil
ensures (fnan(x) && fnan(y)) || feq(x, y)
ensures rest(a) == content(tail)

// what WriteReal appends after the tag depends on the number alone; REALB names it
spec asn1.(*ASNWriter).WriteReal (w, x) (err)
behavior main
prop C06 C11
mode mixed
inline *
unroll 64
defines REALB
modifies buf(w)
ensures W(w, cat(unit(9), REALB(x)))
ensures err == nil

// follows from ghostReal: what WriteReal appends for x, followed by anything, reads back as x
spec asn1.(*ASNReader).ReadReal (a) (v, err)
behavior wire
lemma asn1.ghostReal/main
ghost x float64, t seq
match rest(a) == cat(unit(9), REALB(x), t)
modifies rest(a)
ensures err == nil
ensures (fnan(x) && fnan(v)) || feq(x, v)
ensures rest(a) == t

spec asn1.(*ASNReader).ReadReal (a) (v, err)
behavior main
prop C05 C08 C09
modifies rest(a)
returns err nil | fresh
ensures imp(err == nil, TAGGED(old(rest(a)), 9) && len(old(rest(a))) >= THDR(old(rest(a))) + TLEN(old(rest(a))))
ensures imp(err == nil && TLEN(old(rest(a))) >= 0, rest(a) == drop(old(rest(a)), THDR(old(rest(a))) + TLEN(old(rest(a)))))
ensures len(rest(a)) <= len(old(rest(a)))
loop vars e int, pos int, i int
inv pos == i + 1
loop vars s uint64
inv s < 72057594037927936
rank 18446744073709551616 - s

// ---------------------------------------------------------------- robustness (C08, C09): what every caller may rely on for arbitrary octets
// nothing is ever put back: neither the number of octets nor the number of non-zero octets to come grows
define SHR(r) = len(rest(r)) <= len(old(rest(r))) && nz(rest(r)) <= nz(old(rest(r)))
define EATS(r) = imp(err == nil, len(rest(r)) < len(old(rest(r))))

spec asn1.(*ASNReader).ReadLength (a) (n, err)
behavior safe
prop C08 C09
explicit
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
ensures SHR(a) && EATS(a)
ensures imp(err == nil, 0 - 1 <= n && n < 4294967296)

spec asn1.(*ASNReader).CheckSequenceEnd (a) (end, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
ensures SHR(a)

spec asn1.(*ASNReader).ReadSequenceEnd (a) (err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
ensures SHR(a)

spec asn1.(*ASNReader).NewReader (a, length) (res, err)
behavior safe
prop C08 C09
explicit
modifies rest(a)
returns err nil | fresh
returns res nil | fresh(data)
ensures SHR(a)
requires length < 4294967296
ensures iff(err == nil, res != nil)
ensures imp(err == nil, nz(rest(res)) + nz(rest(a)) <= nz(old(rest(a))))

spec asn1.(*ASNReader).ReadSequenceStart (a, tag) (n, res, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
returns res nil | a | fresh(data)
ensures SHR(a) && EATS(a)
ensures imp(err == nil, res != nil)
ensures imp(err == nil && tag != 0, nz(rest(res)) < nz(old(rest(a))))

spec asn1.(*ASNReader).ReadBoolean (a) (v, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
ensures SHR(a) && EATS(a)

spec asn1.(*ASNReader).ReadInt (a) (v, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
ensures SHR(a) && EATS(a)

spec asn1.(*ASNReader).ReadInt64 (a) (v, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
ensures SHR(a) && EATS(a)

spec asn1.(*ASNReader).ReadString (a) (v, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
ensures SHR(a) && EATS(a)

spec asn1.(*ASNReader).ReadReal (a) (v, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
ensures SHR(a) && EATS(a)
loop vars e int, pos int, i int
inv pos == i + 1
loop vars s uint64
inv s < 72057594037927936
rank 18446744073709551616 - s

spec asn1.(*ASNReader).readStringBuffer (a) (b, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
returns b nil | fresh
ensures SHR(a) && EATS(a)

spec asn1.(*ASNReader).ReadBitString (a) (b, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
returns b nil | fresh
ensures SHR(a) && EATS(a)

spec asn1.(*ASNReader).ReadIndifiniteLengthData (a) (b, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
returns b fresh
ensures SHR(a)

spec asn1.(*ASNReader).ReadOID (a, tag) (oid, err)
behavior safe
prop C08 C09
explicit
uses safe
alloc len(old(rest(a)))
modifies rest(a)
returns err nil | fresh
returns oid nil | fresh
ensures SHR(a) && EATS(a)
