// ---------------------------------------------------------------- lists of a matrix on the wire (C14)
// ENDS: no further item (CheckSequenceEnd reports the end)
define ENDS(s) = len(s) == 0 || (len(s) >= 2 && at(s, 0) == 0 && at(s, 1) == 0)
// what may follow an item: another one, or the end of the list and of its container
define LASTOK(s) = !(len(s) == 1 && at(s, 0) == 0) && imp(ENDS(s), len(s) >= 4 && at(s, 2) == 0 && at(s, 3) == 0)
define I32(n) = 0 - 2147483648 <= n && n <= 2147483647
define SIG(tag, n) = cat(unit(tag, 128, 160, 128, 2), INTB(n), unit(0, 0, 0, 0))
// the one list is the other with one item more
define ONEMORE(new, was) = len(new) == len(was) + 1 && take(content(new), len(was)) == content(was)
define ONEMOREI(new, was) = len(new) == len(was) + 1 && take(content(new, ".val"), len(was)) == content(was, ".val") && take(content(new, ".tag"), len(was)) == content(was, ".tag")

spec embertree.encodeSignal (writer, number, ctxt) (err)
behavior main
prop C14
requires I32(number)
modifies buf(writer)
ensures W(writer, SIG(ctxt, number))
ensures err == nil

spec embertree.(*Target).Encode (t, writer) (err)
behavior main
prop C14
modifies buf(writer)
ensures W(writer, SIG(110, t.Number))
ensures err == nil

spec embertree.(*Source).Encode (s, writer) (err)
behavior main
prop C14
modifies buf(writer)
ensures W(writer, SIG(111, s.Number))
ensures err == nil

spec embertree.decodeSignal (s, reader, ctxt) (err)
behavior wiretarget
prop C14
explicit
ghost n int, t seq
match rest(reader) == cat(SIG(110, n), t)
requires istype(s, "*embertree.Target") && as(s, "*embertree.Target") != nil && ctxt == 110
requires I32(n)
modifies rest(reader), as(s, "*embertree.Target").Number
ensures err == nil
ensures as(s, "*embertree.Target").Number == n
ensures rest(reader) == t
behavior wiresource
prop C14
explicit
ghost n int, t seq
match rest(reader) == cat(SIG(111, n), t)
requires istype(s, "*embertree.Source") && as(s, "*embertree.Source") != nil && ctxt == 111
requires I32(n)
modifies rest(reader), as(s, "*embertree.Source").Number
ensures err == nil
ensures as(s, "*embertree.Source").Number == n
ensures rest(reader) == t

spec embertree.(*Target).Decode (t, reader) (err)
behavior wiretarget
prop C14
explicit
uses wiretarget
ghost n int, u seq
match rest(reader) == cat(SIG(110, n), u)
requires I32(n)
modifies rest(reader), t.Number
ensures err == nil
ensures t.Number == n
ensures rest(reader) == u

spec embertree.(*Source).Decode (s, reader) (err)
behavior wiresource
prop C14
explicit
uses wiresource
ghost n int, t seq
match rest(reader) == cat(SIG(111, n), t)
requires I32(n)
modifies rest(reader), s.Number
ensures err == nil
ensures s.Number == n
ensures rest(reader) == t

spec embertree.DecodeSignal (reader) (s, err)
behavior wiretarget
prop C14
explicit
uses wiretarget
ghost n int, t seq
match rest(reader) == cat(SIG(110, n), t)
requires I32(n)
modifies rest(reader)
returns s fresh("*embertree.Target")
ensures err == nil
ensures as(s, "*embertree.Target").Number == n
ensures rest(reader) == t
behavior wiresource
prop C14
explicit
uses wiresource
ghost n int, t seq
match rest(reader) == cat(SIG(111, n), t)
requires I32(n)
modifies rest(reader)
returns s fresh("*embertree.Source")
ensures err == nil
ensures as(s, "*embertree.Source").Number == n
ensures rest(reader) == t

spec embertree.DeodeSignals (reader, ctxt) (list, err)
behavior wireempty
prop C14
explicit
uses wiretarget, wiresource
cutloops
ghost t seq
match rest(reader) == cat(unit(ctxt, 128, 48, 128, 0, 0, 0, 0), t)
modifies rest(reader)
ensures err == nil && len(list) == 0
ensures rest(reader) == t
behavior target
prop C14
uses wiretarget
cutloops
ghost n int, t seq, u seq
match rest(reader) == cat(unit(ctxt, 128, 48, 128), u)
requires I32(n)
requires len(u) >= 2 && !ENDS(u)
requires LASTOK(t)
modifies rest(reader)
ensures err == nil && ENDS(t) && ONEMOREI(list, signals)
ensures istype(list[len(signals)], "*embertree.Target") && as(list[len(signals)], "*embertree.Target").Number == n
ensures rest(reader) == drop(t, 4)
loop vars signals []embertree.Signal
given rest(reader) == cat(unit(160, 128), SIG(110, n), unit(0, 0), t)
entry rest(reader) == u && len(signals) == 0
each rest(reader) == t && !ENDS(t) && ONEMOREI(next(signals), signals)
each istype(next(signals)[len(signals)], "*embertree.Target") && as(next(signals)[len(signals)], "*embertree.Target").Number == n
behavior source
prop C14
uses wiresource
cutloops
ghost n int, t seq, u seq
match rest(reader) == cat(unit(ctxt, 128, 48, 128), u)
requires I32(n)
requires len(u) >= 2 && !ENDS(u)
requires LASTOK(t)
modifies rest(reader)
ensures err == nil && ENDS(t) && ONEMOREI(list, signals)
ensures istype(list[len(signals)], "*embertree.Source") && as(list[len(signals)], "*embertree.Source").Number == n
ensures rest(reader) == drop(t, 4)
loop vars signals []embertree.Signal
given rest(reader) == cat(unit(160, 128), SIG(111, n), unit(0, 0), t)
entry rest(reader) == u && len(signals) == 0
each rest(reader) == t && !ENDS(t) && ONEMOREI(next(signals), signals)
each istype(next(signals)[len(signals)], "*embertree.Source") && as(next(signals)[len(signals)], "*embertree.Source").Number == n

spec embertree.EncodeSignals (writer, ctxt, signals) (err)
behavior main
prop C14
cutloops
decreases 0
requires forall(k, 0, len(signals), (istype(signals[k], "*embertree.Target") && as(signals[k], "*embertree.Target") != nil) || (istype(signals[k], "*embertree.Source") && as(signals[k], "*embertree.Source") != nil))
modifies buf(writer)
ensures err == nil
ensures appends(writer)
ensures k == len(signals) && buf(writer) == cat(head(buf(writer)), unit(0, 0, 0, 0))
loop vars i int
witness k = 0 ; k + 1
inv k == i
inv k == i + 1
inv k <= len(signals)
entry buf(writer) == cat(old(buf(writer)), unit(ctxt, 128, 48, 128))
each imp(istype(signals[k], "*embertree.Target"), W(writer, cat(unit(160, 128), SIG(110, as(signals[k], "*embertree.Target").Number), unit(0, 0))))
each imp(istype(signals[k], "*embertree.Source"), W(writer, cat(unit(160, 128), SIG(111, as(signals[k], "*embertree.Source").Number), unit(0, 0))))

// ---------------------------------------------------------------- connections
define CTX(k, s) = cat(unit(160 + k, 128), s, unit(0, 0))
define CONN0(t, op, d) = cat(unit(112, 128, 160, 128, 2), INTB(t), unit(0, 0, 162, 128, 2), INTB(op), unit(0, 0, 163, 128, 2), INTB(d), unit(0, 0, 0, 0))
define CONN1(t, s, op, d) = cat(unit(112, 128, 160, 128, 2), INTB(t), unit(0, 0, 161, 128, 13), LEN(len(OIDF(s))), OIDF(s), unit(0, 0, 162, 128, 2), INTB(op), unit(0, 0, 163, 128, 2), INTB(d), unit(0, 0, 0, 0))
define SRCOK(c) = NONNEG(content(c.Sources)) && len(c.Sources) < 268435456

spec embertree.(*Connection).Encode (c, writer) (err)
behavior main
prop C14
requires NONNEG(content(c.Sources))
requires len(OIDF(content(c.Sources))) < 4294967296
modifies buf(writer)
ensures appends(writer)
ensures imp(len(c.Sources) == 0, W(writer, CONN0(c.Target, c.operation, c.disposition)))
ensures imp(len(c.Sources) > 0, W(writer, CONN1(c.Target, content(c.Sources), c.operation, c.disposition)))
ensures err == nil

spec embertree.(*Connection).Decode (c, reader) (err)
behavior wireplain
prop C14
explicit
ghost n int, op int, d int, t seq
match rest(reader) == cat(CONN0(n, op, d), t)
requires I32(n) && 0 <= op && op <= 2 && 0 <= d && d <= 3
modifies rest(reader), c.Target, c.Sources, c.operation, c.disposition
ensures err == nil
ensures c.Target == n && c.operation == op && c.disposition == d
ensures c.Sources == old(c.Sources)
ensures rest(reader) == t
behavior wiresources
prop C14
explicit
ghost n int, xs seq32, op int, d int, t seq
match rest(reader) == cat(CONN1(n, xs, op, d), t)
requires I32(n) && 0 <= op && op <= 2 && 0 <= d && d <= 3
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader), c.Target, c.Sources, c.operation, c.disposition
ensures err == nil
ensures c.Target == n && c.operation == op && c.disposition == d
ensures c.Sources == nil || isfresh(ref(c.Sources))
ensures content(c.Sources) == xs
ensures rest(reader) == t

spec embertree.(*Label).Encode (l, writer) (err)
behavior main
prop C14
requires NONNEG(content(l.BasePath))
requires len(OIDF(content(l.BasePath))) < 4294967296 && len(l.Description) < 4294967296
modifies buf(writer)
ensures W(writer, cat(unit(114, 128, 160, 128, 13), STRB(OIDF(content(l.BasePath))), unit(0, 0, 161, 128, 12), STRB(l.Description), unit(0, 0, 0, 0)))
ensures err == nil

spec embertree.(*Label).Decode (l, reader) (err)
behavior wire
prop C14
explicit
ghost xs seq32, s seq, t seq
match rest(reader) == cat(unit(114, 128, 160, 128, 13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0, 161, 128, 12), LEN(len(s)), s, unit(0, 0, 0, 0), t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280 && len(s) < 4294967280
modifies rest(reader), l.BasePath, l.Description
ensures err == nil
ensures l.BasePath == nil || isfresh(ref(l.BasePath))
ensures content(l.BasePath) == xs && l.Description == s
ensures rest(reader) == t

spec embertree.DecodeLabel (reader) (l, err)
behavior wire
prop C14
explicit
uses wire
ghost xs seq32, s seq, t seq
match rest(reader) == cat(unit(114, 128, 160, 128, 13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0, 161, 128, 12), LEN(len(s)), s, unit(0, 0, 0, 0), t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280 && len(s) < 4294967280
modifies rest(reader)
returns l fresh
ensures err == nil
ensures l.BasePath == nil || isfresh(ref(l.BasePath))
ensures content(l.BasePath) == xs && l.Description == s
ensures rest(reader) == t

spec embertree.(*Element).EncodeTargets (element, writer) (err)
behavior main
prop C14
uses main
decreases 1
requires forall(k, 0, len(element.targets), (istype(element.targets[k], "*embertree.Target") && as(element.targets[k], "*embertree.Target") != nil) || (istype(element.targets[k], "*embertree.Source") && as(element.targets[k], "*embertree.Source") != nil))
modifies buf(writer)
returns err nil | fresh
ensures iff(err == nil, element.isMatrix)
ensures appends(writer)
ensures imp(element.isMatrix, buf(writer) == cat(old(buf(writer)), capp("EncodeSignals", 0)))
ensures imp(element.isMatrix, carg("EncodeSignals", 0, ctxt) == 163 && carg("EncodeSignals", 0, signals) == element.targets && carg("EncodeSignals", 0, writer) == writer)
ensures imp(!element.isMatrix, buf(writer) == old(buf(writer)))

spec embertree.(*Element).EncodeSources (element, writer) (err)
behavior main
prop C14
uses main
decreases 1
requires forall(k, 0, len(element.sources), (istype(element.sources[k], "*embertree.Target") && as(element.sources[k], "*embertree.Target") != nil) || (istype(element.sources[k], "*embertree.Source") && as(element.sources[k], "*embertree.Source") != nil))
modifies buf(writer)
returns err nil | fresh
ensures iff(err == nil, element.isMatrix)
ensures appends(writer)
ensures imp(element.isMatrix, buf(writer) == cat(old(buf(writer)), capp("EncodeSignals", 0)))
ensures imp(element.isMatrix, carg("EncodeSignals", 0, ctxt) == 164 && carg("EncodeSignals", 0, signals) == element.sources && carg("EncodeSignals", 0, writer) == writer)
ensures imp(!element.isMatrix, buf(writer) == old(buf(writer)))

spec embertree.(*Element).EncodeConnections (element, writer) (err)
behavior main
prop C14
cutloops
requires forall(k, 0, len(element.connections), element.connections[k] != nil && SRCOK(element.connections[k]))
modifies buf(writer)
returns err nil | fresh
ensures iff(err == nil, element.isMatrix)
ensures appends(writer)
ensures imp(element.isMatrix, k == len(element.connections) && buf(writer) == cat(head(buf(writer)), unit(0, 0, 0, 0)))
ensures imp(!element.isMatrix, buf(writer) == old(buf(writer)))
loop vars i int
witness k = 0 ; k + 1
inv k == i
inv k == i + 1
inv k <= len(element.connections)
entry buf(writer) == cat(old(buf(writer)), unit(165, 128, 48, 128))
each imp(len(element.connections[k].Sources) == 0, W(writer, CTX(0, CONN0(element.connections[k].Target, element.connections[k].operation, element.connections[k].disposition))))
each imp(len(element.connections[k].Sources) > 0, W(writer, CTX(0, CONN1(element.connections[k].Target, content(element.connections[k].Sources), element.connections[k].operation, element.connections[k].disposition))))

spec embertree.(*Element).DecodeTargets (element, reader) (err)
behavior matrix
prop C14
uses safe
requires element.isMatrix
modifies rest(reader), element.targets
returns err nil | fresh
ensures ncalls("DeodeSignals") == 1 && carg("DeodeSignals", 0, reader) == reader && carg("DeodeSignals", 0, ctxt) == 163
ensures imp(err == nil, cres("DeodeSignals", 0, err) == nil && element.targets == cres("DeodeSignals", 0, list))
ensures iff(err == nil, cres("DeodeSignals", 0, err) == nil)

spec embertree.(*Element).DecodeSources (element, reader) (err)
behavior matrix
prop C14
uses safe
requires element.isMatrix
modifies rest(reader), element.sources
returns err nil | fresh
ensures ncalls("DeodeSignals") == 1 && carg("DeodeSignals", 0, reader) == reader && carg("DeodeSignals", 0, ctxt) == 164
ensures imp(err == nil, cres("DeodeSignals", 0, err) == nil && element.sources == cres("DeodeSignals", 0, list))
ensures iff(err == nil, cres("DeodeSignals", 0, err) == nil)

spec embertree.(*Element).DecodeConnections (element, reader) (err)
behavior wireempty
prop C14
explicit
uses wireplain
cutloops
ghost t seq
match rest(reader) == cat(unit(165, 128, 48, 128, 0, 0, 0, 0), t)
requires element.isMatrix
modifies rest(reader), element.connections
ensures err == nil && len(element.connections) == 0
ensures rest(reader) == t
behavior plain
prop C14
uses wireplain
cutloops
ghost n int, op int, d int, t seq, u seq
match rest(reader) == cat(unit(165, 128, 48, 128), u)
requires element.isMatrix
requires I32(n) && 0 <= op && op <= 2 && 0 <= d && d <= 3
requires len(u) >= 2 && !ENDS(u)
requires LASTOK(t)
modifies rest(reader), element.connections
ensures err == nil && ENDS(t) && ONEMORE(element.connections, connections)
ensures element.connections[len(connections)].Target == n && len(element.connections[len(connections)].Sources) == 0
ensures element.connections[len(connections)].operation == op && element.connections[len(connections)].disposition == d
ensures rest(reader) == drop(t, 4)
loop vars connections []*embertree.Connection
given rest(reader) == cat(unit(160, 128), CONN0(n, op, d), unit(0, 0), t)
entry rest(reader) == u && len(connections) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(connections), connections)
each next(connections)[len(connections)].Target == n && len(next(connections)[len(connections)].Sources) == 0
each next(connections)[len(connections)].operation == op && next(connections)[len(connections)].disposition == d
behavior sources
prop C14
uses wiresources
cutloops
ghost n int, xs seq32, op int, d int, t seq, u seq
match rest(reader) == cat(unit(165, 128, 48, 128), u)
requires element.isMatrix
requires I32(n) && 0 <= op && op <= 2 && 0 <= d && d <= 3
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires LASTOK(t)
modifies rest(reader), element.connections
ensures err == nil && ENDS(t) && ONEMORE(element.connections, connections)
ensures element.connections[len(connections)].Target == n && content(element.connections[len(connections)].Sources) == xs
ensures element.connections[len(connections)].operation == op && element.connections[len(connections)].disposition == d
ensures rest(reader) == drop(t, 4)
loop vars connections []*embertree.Connection
given rest(reader) == cat(unit(160, 128), CONN1(n, xs, op, d), unit(0, 0), t)
entry rest(reader) == u && len(connections) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(connections), connections)
each next(connections)[len(connections)].Target == n && content(next(connections)[len(connections)].Sources) == xs
each next(connections)[len(connections)].operation == op && next(connections)[len(connections)].disposition == d

// ---------------------------------------------------------------- labels of a matrix
define LABEL(xs, s) = cat(unit(114, 128, 160, 128, 13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0, 161, 128, 12), LEN(len(s)), s, unit(0, 0, 0, 0))
define LABOK(l) = NONNEG(content(l.BasePath)) && len(l.BasePath) < 268435456 && len(l.Description) < 4294967296

spec embertree.(*MatrixContent).EncodeLabels (c, writer) (err)
behavior main
prop C14
cutloops
requires forall(k, 0, len(c.labels), c.labels[k] != nil && LABOK(c.labels[k]))
modifies buf(writer)
ensures err == nil
ensures appends(writer)
ensures k == len(c.labels) && buf(writer) == cat(head(buf(writer)), unit(0, 0, 0, 0))
loop vars i int
witness k = 0 ; k + 1
inv k == i
inv k == i + 1
inv k <= len(c.labels)
entry buf(writer) == cat(old(buf(writer)), unit(170, 128, 48, 128))
each W(writer, cat(unit(160, 128), LABEL(content(c.labels[k].BasePath), c.labels[k].Description), unit(0, 0)))

spec embertree.(*MatrixContent).DecodeLabels (c, reader) (err)
behavior wireempty
prop C14
explicit
uses wire
cutloops
ghost t seq
match rest(reader) == cat(unit(170, 128, 48, 128, 0, 0, 0, 0), t)
modifies rest(reader), c.labels
ensures err == nil && len(c.labels) == 0
ensures rest(reader) == t
behavior label
prop C14
uses wire
cutloops
ghost xs seq32, s seq, t seq, u seq
match rest(reader) == cat(unit(170, 128, 48, 128), u)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280 && len(s) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires LASTOK(t)
modifies rest(reader), c.labels
ensures err == nil && ENDS(t) && ONEMORE(c.labels, labels)
ensures content(c.labels[len(labels)].BasePath) == xs && c.labels[len(labels)].Description == s
ensures rest(reader) == drop(t, 4)
loop vars labels []*embertree.Label
given rest(reader) == cat(unit(160, 128), LABEL(xs, s), unit(0, 0), t)
entry rest(reader) == u && len(labels) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(labels), labels)
each content(next(labels)[len(labels)].BasePath) == xs && next(labels)[len(labels)].Description == s

// ---------------------------------------------------------------- invocations
// what may follow an argument: another one, or the end of the list, its context and the invocation
define LASTOK6(s) = !(len(s) == 1 && at(s, 0) == 0) && imp(ENDS(s), len(s) >= 6 && at(s, 2) == 0 && at(s, 3) == 0 && at(s, 4) == 0 && at(s, 5) == 0)

define CPFITSQ(cp) = imp(cp.valueType == 1, len(cp.stringVal) < 4294967296) && imp(cp.valueType == 4, len(cp.bufferVal) < 4294967296) && \
  imp(cp.valueType == 6, NONNEG(content(cp.oid)) && len(cp.oid) < 268435456)

spec embertree.(*Invocation).Encode (i, writer) (err)
behavior main
prop C14
cutloops
requires I32(i.invocationID)
requires forall(k, 0, len(i.arguments), i.arguments[k] != nil && CPOK(i.arguments[k]) && CPFITSQ(i.arguments[k]))
modifies buf(writer)
ensures err == nil
ensures appends(writer)
ensures imp(len(i.arguments) == 0, W(writer, cat(unit(118, 128, 160, 128, 2), INTB(i.invocationID), unit(0, 0, 0, 0))))
ensures imp(len(i.arguments) > 0, k == len(i.arguments) && buf(writer) == cat(head(buf(writer)), unit(0, 0, 0, 0, 0, 0)))
loop vars x int
witness k = 0 ; k + 1
inv k == x
inv k == x + 1
inv k <= len(i.arguments)
entry buf(writer) == cat(old(buf(writer)), unit(118, 128, 160, 128, 2), INTB(i.invocationID), unit(0, 0, 161, 128, 48, 128))
each buf(writer) == cat(old(buf(writer)), capp("Encode", 0)) && carg("Encode", 0, cp) == i.arguments[k] && carg("Encode", 0, ctxt) == 0

spec embertree.(*Invocation).Decode (i, reader) (err)
behavior wireplain
prop C14
explicit
ghost n int, t seq
match rest(reader) == cat(unit(118, 128, 160, 128, 2), INTB(n), unit(0, 0, 0, 0), t)
requires I32(n)
modifies rest(reader), i.invocationID, i.arguments
ensures err == nil && i.invocationID == n && i.arguments == old(i.arguments)
ensures rest(reader) == t
behavior string
prop C14
uses wirestring
ghost n int, s seq, t seq, u seq
match rest(reader) == cat(unit(118, 128, 160, 128, 2), INTB(n), unit(0, 0, 161, 128, 48, 128), u)
requires I32(n)
requires len(u) >= 2 && !ENDS(u)
requires LASTOK6(t)
requires len(s) < 4294967280
modifies rest(reader), i.invocationID, i.arguments
ensures err == nil && i.invocationID == n && ENDS(t) && ONEMORE(i.arguments, arguments)
ensures i.arguments[len(arguments)].isSet && i.arguments[len(arguments)].valueType == 1 && i.arguments[len(arguments)].stringVal == s
ensures rest(reader) == drop(t, 6)
loop vars arguments []*embertree.ContentParameter
given rest(reader) == cat(unit(160, 128), unit(12), LEN(len(s)), s, unit(0, 0), t)
entry rest(reader) == u && len(arguments) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(arguments), arguments)
each next(arguments)[len(arguments)].isSet && next(arguments)[len(arguments)].valueType == 1 && next(arguments)[len(arguments)].stringVal == s
behavior bool
prop C14
uses wirebool
ghost n int, x bool, t seq, u seq
match rest(reader) == cat(unit(118, 128, 160, 128, 2), INTB(n), unit(0, 0, 161, 128, 48, 128), u)
requires I32(n)
requires len(u) >= 2 && !ENDS(u)
requires LASTOK6(t)
modifies rest(reader), i.invocationID, i.arguments
ensures err == nil && i.invocationID == n && ENDS(t) && ONEMORE(i.arguments, arguments)
ensures i.arguments[len(arguments)].isSet && i.arguments[len(arguments)].valueType == 2 && eqv(i.arguments[len(arguments)].boolVal, x)
ensures rest(reader) == drop(t, 6)
loop vars arguments []*embertree.ContentParameter
given rest(reader) == cat(unit(160, 128), unit(1, 1, ite(x, 255, 0)), unit(0, 0), t)
entry rest(reader) == u && len(arguments) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(arguments), arguments)
each next(arguments)[len(arguments)].isSet && next(arguments)[len(arguments)].valueType == 2 && eqv(next(arguments)[len(arguments)].boolVal, x)
behavior int
prop C14
uses wireint
ghost n int, i64 int64, t seq, u seq
match rest(reader) == cat(unit(118, 128, 160, 128, 2), INTB(n), unit(0, 0, 161, 128, 48, 128), u)
requires I32(n)
requires len(u) >= 2 && !ENDS(u)
requires LASTOK6(t)
modifies rest(reader), i.invocationID, i.arguments
ensures err == nil && i.invocationID == n && ENDS(t) && ONEMORE(i.arguments, arguments)
ensures i.arguments[len(arguments)].isSet && i.arguments[len(arguments)].valueType == 3 && eqv(i.arguments[len(arguments)].intVal, i64)
ensures rest(reader) == drop(t, 6)
loop vars arguments []*embertree.ContentParameter
given rest(reader) == cat(unit(160, 128), unit(2), INTB(i64), unit(0, 0), t)
entry rest(reader) == u && len(arguments) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(arguments), arguments)
each next(arguments)[len(arguments)].isSet && next(arguments)[len(arguments)].valueType == 3 && eqv(next(arguments)[len(arguments)].intVal, i64)
behavior buffer
prop C14
uses wirebuffer
ghost n int, s seq, t seq, u seq
match rest(reader) == cat(unit(118, 128, 160, 128, 2), INTB(n), unit(0, 0, 161, 128, 48, 128), u)
requires I32(n)
requires len(u) >= 2 && !ENDS(u)
requires LASTOK6(t)
requires len(s) < 4294967280
modifies rest(reader), i.invocationID, i.arguments
ensures err == nil && i.invocationID == n && ENDS(t) && ONEMORE(i.arguments, arguments)
ensures i.arguments[len(arguments)].isSet && i.arguments[len(arguments)].valueType == 4 && content(i.arguments[len(arguments)].bufferVal) == s
ensures rest(reader) == drop(t, 6)
loop vars arguments []*embertree.ContentParameter
given rest(reader) == cat(unit(160, 128), unit(3), LEN(len(s)), s, unit(0, 0), t)
entry rest(reader) == u && len(arguments) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(arguments), arguments)
each next(arguments)[len(arguments)].isSet && next(arguments)[len(arguments)].valueType == 4 && content(next(arguments)[len(arguments)].bufferVal) == s
behavior real
prop C14
uses wirereal
ghost n int, x float64, t seq, u seq
match rest(reader) == cat(unit(118, 128, 160, 128, 2), INTB(n), unit(0, 0, 161, 128, 48, 128), u)
requires I32(n)
requires len(u) >= 2 && !ENDS(u)
requires LASTOK6(t)
modifies rest(reader), i.invocationID, i.arguments
ensures err == nil && i.invocationID == n && ENDS(t) && ONEMORE(i.arguments, arguments)
ensures i.arguments[len(arguments)].isSet && i.arguments[len(arguments)].valueType == 5 && ((fnan(x) && fnan(i.arguments[len(arguments)].realVal)) || feq(x, i.arguments[len(arguments)].realVal))
ensures rest(reader) == drop(t, 6)
loop vars arguments []*embertree.ContentParameter
given rest(reader) == cat(unit(160, 128), unit(9), REALB(x), unit(0, 0), t)
entry rest(reader) == u && len(arguments) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(arguments), arguments)
each next(arguments)[len(arguments)].isSet && next(arguments)[len(arguments)].valueType == 5 && ((fnan(x) && fnan(next(arguments)[len(arguments)].realVal)) || feq(x, next(arguments)[len(arguments)].realVal))
behavior oid
prop C14
uses wireoid
ghost n int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(118, 128, 160, 128, 2), INTB(n), unit(0, 0, 161, 128, 48, 128), u)
requires I32(n)
requires len(u) >= 2 && !ENDS(u)
requires LASTOK6(t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader), i.invocationID, i.arguments
ensures err == nil && i.invocationID == n && ENDS(t) && ONEMORE(i.arguments, arguments)
ensures i.arguments[len(arguments)].isSet && i.arguments[len(arguments)].valueType == 6 && content(i.arguments[len(arguments)].oid) == xs
ensures rest(reader) == drop(t, 6)
loop vars arguments []*embertree.ContentParameter
given rest(reader) == cat(unit(160, 128), unit(13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
entry rest(reader) == u && len(arguments) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(arguments), arguments)
each next(arguments)[len(arguments)].isSet && next(arguments)[len(arguments)].valueType == 6 && content(next(arguments)[len(arguments)].oid) == xs
