// ---------------------------------------------------------------- contents on the wire (C13)
// written by tools/gencontents.py
// what may follow a field: another one, or the end of the contents
define FIELDOK(s) = !(len(s) == 1 && at(s, 0) == 0) && imp(ENDS(s), len(s) >= 2)
// the field can take a value of the type
define TAKES(cp, n) = CPOK(cp) && (cp.valueType == 0 || cp.valueType == n)
define SAMECP(a, b) = a.isSet == b.isSet && a.valueType == b.valueType && a.stringVal == b.stringVal && eqv(a.boolVal, b.boolVal) && eqv(a.intVal, b.intVal) && eqv(a.bufferVal, b.bufferVal) && eqv(a.realVal, b.realVal) && eqv(a.oid, b.oid)
define KEPT(a) = a.isSet == old(a.isSet) && a.valueType == old(a.valueType) && a.stringVal == old(a.stringVal) && eqv(a.boolVal, old(a.boolVal)) && eqv(a.intVal, old(a.intVal)) && eqv(a.bufferVal, old(a.bufferVal)) && eqv(a.realVal, old(a.realVal)) && eqv(a.oid, old(a.oid))
define KEPTH(a) = a.isSet == head(a.isSet) && a.valueType == head(a.valueType) && a.stringVal == head(a.stringVal) && eqv(a.boolVal, head(a.boolVal)) && eqv(a.intVal, head(a.intVal)) && eqv(a.bufferVal, head(a.bufferVal)) && eqv(a.realVal, head(a.realVal)) && eqv(a.oid, head(a.oid))
define SENDS(cp) = CPOK(cp) && CPFITSQ(cp)
define TUPLE(ty, name) = cat(unit(117, 128, 160, 128, 2), INTB(ty), unit(0, 0, 161, 128, 12), STRB(name), unit(0, 0, 0, 0))
define OIDPIECE(k, o) = ite(o == nil, empty(), cat(unit(160 + k, 128, 13), STRB(OIDF(content(o))), unit(0, 0)))
define OIDOK(o) = NONNEG(content(o)) && len(o) < 268435456

spec embertree.(*ContentParameter).Encode (cp, ctxt, writer) (err)
behavior piece
prop C13
explicit
requires ctxt < 31
modifies buf(writer)
ensures imp(err == nil, appends(writer))
ensures imp(!cp.isSet, err == nil && buf(writer) == old(buf(writer)))

spec embertree.(*CommandContents).Encode (cc, writer) (err)
behavior main
prop C13 C17
requires I32(cc.fieldFlags)
modifies buf(writer)
ensures W(writer, cat(unit(2), INTB(cc.fieldFlags)))
ensures err == nil

spec embertree.(*CommandContents).Decode (cc, reader) (err)
behavior wire
prop C13 C17
explicit
ghost n int, t seq
match rest(reader) == cat(unit(2), INTB(n), t)
requires I32(n)
modifies rest(reader), cc.fieldFlags
ensures err == nil && cc.fieldFlags == n
ensures rest(reader) == t

spec embertree.(*NodeContents).Encode (nc, writer) (err)
behavior main
prop C13
uses piece
requires OIDOK(nc.templateReference)
modifies buf(writer)
ensures imp(err == nil, W(writer, cat(unit(49, 128), cfor("Encode", cp, nc.identifier, ctxt, 0), cfor("Encode", cp, nc.description, ctxt, 1), cfor("Encode", cp, nc.isRoot, ctxt, 2), cfor("Encode", cp, nc.isOnline, ctxt, 3), cfor("Encode", cp, nc.schemaIdentifiers, ctxt, 4), OIDPIECE(5, nc.templateReference), unit(0, 0))))
ensures imp(err != nil, somecall("Encode"))
ensures imp(err != nil, imp(somecall("Encode"), lastcall("Encode", err) != nil))

spec embertree.(*NodeContents).Decode (nc, reader) (err)
behavior wireempty
prop C13
explicit
ghost t seq
match rest(reader) == cat(unit(49, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil
ensures rest(reader) == t
behavior string
prop C13
uses wirestring
cutloops
ghost k int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1 || k == 2 || k == 3 || k == 4
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(nc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 1 && nc.identifier.stringVal == s)
ensures imp(k != 0, KEPTH(nc.identifier))
ensures imp(k == 1, nc.description.isSet && nc.description.valueType == 1 && nc.description.stringVal == s)
ensures imp(k != 1, KEPTH(nc.description))
ensures imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 1 && nc.isRoot.stringVal == s)
ensures imp(k != 2, KEPTH(nc.isRoot))
ensures imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 1 && nc.isOnline.stringVal == s)
ensures imp(k != 3, KEPTH(nc.isOnline))
ensures imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 1 && nc.schemaIdentifiers.stringVal == s)
ensures imp(k != 4, KEPTH(nc.schemaIdentifiers))
ensures nc.templateReference == head(nc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(12), LEN(len(s)), s, unit(0, 0), t)
given imp(k == 0, TAKES(nc.identifier, 1))
given imp(k == 1, TAKES(nc.description, 1))
given imp(k == 2, TAKES(nc.isRoot, 1))
given imp(k == 3, TAKES(nc.isOnline, 1))
given imp(k == 4, TAKES(nc.schemaIdentifiers, 1))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 1 && nc.identifier.stringVal == s)
each imp(k != 0, KEPT(nc.identifier))
each imp(k == 1, nc.description.isSet && nc.description.valueType == 1 && nc.description.stringVal == s)
each imp(k != 1, KEPT(nc.description))
each imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 1 && nc.isRoot.stringVal == s)
each imp(k != 2, KEPT(nc.isRoot))
each imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 1 && nc.isOnline.stringVal == s)
each imp(k != 3, KEPT(nc.isOnline))
each imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 1 && nc.schemaIdentifiers.stringVal == s)
each imp(k != 4, KEPT(nc.schemaIdentifiers))
each nc.templateReference == old(nc.templateReference)
behavior bool
prop C13
uses wirebool
cutloops
ghost k int, x bool, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1 || k == 2 || k == 3 || k == 4
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(nc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 2 && eqv(nc.identifier.boolVal, x))
ensures imp(k != 0, KEPTH(nc.identifier))
ensures imp(k == 1, nc.description.isSet && nc.description.valueType == 2 && eqv(nc.description.boolVal, x))
ensures imp(k != 1, KEPTH(nc.description))
ensures imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 2 && eqv(nc.isRoot.boolVal, x))
ensures imp(k != 2, KEPTH(nc.isRoot))
ensures imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 2 && eqv(nc.isOnline.boolVal, x))
ensures imp(k != 3, KEPTH(nc.isOnline))
ensures imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 2 && eqv(nc.schemaIdentifiers.boolVal, x))
ensures imp(k != 4, KEPTH(nc.schemaIdentifiers))
ensures nc.templateReference == head(nc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(1, 1, ite(x, 255, 0)), unit(0, 0), t)
given imp(k == 0, TAKES(nc.identifier, 2))
given imp(k == 1, TAKES(nc.description, 2))
given imp(k == 2, TAKES(nc.isRoot, 2))
given imp(k == 3, TAKES(nc.isOnline, 2))
given imp(k == 4, TAKES(nc.schemaIdentifiers, 2))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 2 && eqv(nc.identifier.boolVal, x))
each imp(k != 0, KEPT(nc.identifier))
each imp(k == 1, nc.description.isSet && nc.description.valueType == 2 && eqv(nc.description.boolVal, x))
each imp(k != 1, KEPT(nc.description))
each imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 2 && eqv(nc.isRoot.boolVal, x))
each imp(k != 2, KEPT(nc.isRoot))
each imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 2 && eqv(nc.isOnline.boolVal, x))
each imp(k != 3, KEPT(nc.isOnline))
each imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 2 && eqv(nc.schemaIdentifiers.boolVal, x))
each imp(k != 4, KEPT(nc.schemaIdentifiers))
each nc.templateReference == old(nc.templateReference)
behavior int
prop C13
uses wireint
cutloops
ghost k int, i64 int64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1 || k == 2 || k == 3 || k == 4
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(nc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 3 && eqv(nc.identifier.intVal, i64))
ensures imp(k != 0, KEPTH(nc.identifier))
ensures imp(k == 1, nc.description.isSet && nc.description.valueType == 3 && eqv(nc.description.intVal, i64))
ensures imp(k != 1, KEPTH(nc.description))
ensures imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 3 && eqv(nc.isRoot.intVal, i64))
ensures imp(k != 2, KEPTH(nc.isRoot))
ensures imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 3 && eqv(nc.isOnline.intVal, i64))
ensures imp(k != 3, KEPTH(nc.isOnline))
ensures imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 3 && eqv(nc.schemaIdentifiers.intVal, i64))
ensures imp(k != 4, KEPTH(nc.schemaIdentifiers))
ensures nc.templateReference == head(nc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(2), INTB(i64), unit(0, 0), t)
given imp(k == 0, TAKES(nc.identifier, 3))
given imp(k == 1, TAKES(nc.description, 3))
given imp(k == 2, TAKES(nc.isRoot, 3))
given imp(k == 3, TAKES(nc.isOnline, 3))
given imp(k == 4, TAKES(nc.schemaIdentifiers, 3))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 3 && eqv(nc.identifier.intVal, i64))
each imp(k != 0, KEPT(nc.identifier))
each imp(k == 1, nc.description.isSet && nc.description.valueType == 3 && eqv(nc.description.intVal, i64))
each imp(k != 1, KEPT(nc.description))
each imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 3 && eqv(nc.isRoot.intVal, i64))
each imp(k != 2, KEPT(nc.isRoot))
each imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 3 && eqv(nc.isOnline.intVal, i64))
each imp(k != 3, KEPT(nc.isOnline))
each imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 3 && eqv(nc.schemaIdentifiers.intVal, i64))
each imp(k != 4, KEPT(nc.schemaIdentifiers))
each nc.templateReference == old(nc.templateReference)
behavior buffer
prop C13
uses wirebuffer
cutloops
ghost k int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1 || k == 2 || k == 3 || k == 4
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(nc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 4 && content(nc.identifier.bufferVal) == s)
ensures imp(k != 0, KEPTH(nc.identifier))
ensures imp(k == 1, nc.description.isSet && nc.description.valueType == 4 && content(nc.description.bufferVal) == s)
ensures imp(k != 1, KEPTH(nc.description))
ensures imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 4 && content(nc.isRoot.bufferVal) == s)
ensures imp(k != 2, KEPTH(nc.isRoot))
ensures imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 4 && content(nc.isOnline.bufferVal) == s)
ensures imp(k != 3, KEPTH(nc.isOnline))
ensures imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 4 && content(nc.schemaIdentifiers.bufferVal) == s)
ensures imp(k != 4, KEPTH(nc.schemaIdentifiers))
ensures nc.templateReference == head(nc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(3), LEN(len(s)), s, unit(0, 0), t)
given imp(k == 0, TAKES(nc.identifier, 4))
given imp(k == 1, TAKES(nc.description, 4))
given imp(k == 2, TAKES(nc.isRoot, 4))
given imp(k == 3, TAKES(nc.isOnline, 4))
given imp(k == 4, TAKES(nc.schemaIdentifiers, 4))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 4 && content(nc.identifier.bufferVal) == s)
each imp(k != 0, KEPT(nc.identifier))
each imp(k == 1, nc.description.isSet && nc.description.valueType == 4 && content(nc.description.bufferVal) == s)
each imp(k != 1, KEPT(nc.description))
each imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 4 && content(nc.isRoot.bufferVal) == s)
each imp(k != 2, KEPT(nc.isRoot))
each imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 4 && content(nc.isOnline.bufferVal) == s)
each imp(k != 3, KEPT(nc.isOnline))
each imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 4 && content(nc.schemaIdentifiers.bufferVal) == s)
each imp(k != 4, KEPT(nc.schemaIdentifiers))
each nc.templateReference == old(nc.templateReference)
behavior real
prop C13
uses wirereal
cutloops
ghost k int, x float64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1 || k == 2 || k == 3 || k == 4
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(nc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 5 && ((fnan(x) && fnan(nc.identifier.realVal)) || feq(x, nc.identifier.realVal)))
ensures imp(k != 0, KEPTH(nc.identifier))
ensures imp(k == 1, nc.description.isSet && nc.description.valueType == 5 && ((fnan(x) && fnan(nc.description.realVal)) || feq(x, nc.description.realVal)))
ensures imp(k != 1, KEPTH(nc.description))
ensures imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 5 && ((fnan(x) && fnan(nc.isRoot.realVal)) || feq(x, nc.isRoot.realVal)))
ensures imp(k != 2, KEPTH(nc.isRoot))
ensures imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 5 && ((fnan(x) && fnan(nc.isOnline.realVal)) || feq(x, nc.isOnline.realVal)))
ensures imp(k != 3, KEPTH(nc.isOnline))
ensures imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 5 && ((fnan(x) && fnan(nc.schemaIdentifiers.realVal)) || feq(x, nc.schemaIdentifiers.realVal)))
ensures imp(k != 4, KEPTH(nc.schemaIdentifiers))
ensures nc.templateReference == head(nc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(9), REALB(x), unit(0, 0), t)
given imp(k == 0, TAKES(nc.identifier, 5))
given imp(k == 1, TAKES(nc.description, 5))
given imp(k == 2, TAKES(nc.isRoot, 5))
given imp(k == 3, TAKES(nc.isOnline, 5))
given imp(k == 4, TAKES(nc.schemaIdentifiers, 5))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 5 && ((fnan(x) && fnan(nc.identifier.realVal)) || feq(x, nc.identifier.realVal)))
each imp(k != 0, KEPT(nc.identifier))
each imp(k == 1, nc.description.isSet && nc.description.valueType == 5 && ((fnan(x) && fnan(nc.description.realVal)) || feq(x, nc.description.realVal)))
each imp(k != 1, KEPT(nc.description))
each imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 5 && ((fnan(x) && fnan(nc.isRoot.realVal)) || feq(x, nc.isRoot.realVal)))
each imp(k != 2, KEPT(nc.isRoot))
each imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 5 && ((fnan(x) && fnan(nc.isOnline.realVal)) || feq(x, nc.isOnline.realVal)))
each imp(k != 3, KEPT(nc.isOnline))
each imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 5 && ((fnan(x) && fnan(nc.schemaIdentifiers.realVal)) || feq(x, nc.schemaIdentifiers.realVal)))
each imp(k != 4, KEPT(nc.schemaIdentifiers))
each nc.templateReference == old(nc.templateReference)
behavior oid
prop C13
uses wireoid
cutloops
ghost k int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1 || k == 2 || k == 3 || k == 4
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader), fields(nc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 6 && content(nc.identifier.oid) == xs)
ensures imp(k != 0, KEPTH(nc.identifier))
ensures imp(k == 1, nc.description.isSet && nc.description.valueType == 6 && content(nc.description.oid) == xs)
ensures imp(k != 1, KEPTH(nc.description))
ensures imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 6 && content(nc.isRoot.oid) == xs)
ensures imp(k != 2, KEPTH(nc.isRoot))
ensures imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 6 && content(nc.isOnline.oid) == xs)
ensures imp(k != 3, KEPTH(nc.isOnline))
ensures imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 6 && content(nc.schemaIdentifiers.oid) == xs)
ensures imp(k != 4, KEPTH(nc.schemaIdentifiers))
ensures nc.templateReference == head(nc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
given imp(k == 0, TAKES(nc.identifier, 6))
given imp(k == 1, TAKES(nc.description, 6))
given imp(k == 2, TAKES(nc.isRoot, 6))
given imp(k == 3, TAKES(nc.isOnline, 6))
given imp(k == 4, TAKES(nc.schemaIdentifiers, 6))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each imp(k == 0, nc.identifier.isSet && nc.identifier.valueType == 6 && content(nc.identifier.oid) == xs)
each imp(k != 0, KEPT(nc.identifier))
each imp(k == 1, nc.description.isSet && nc.description.valueType == 6 && content(nc.description.oid) == xs)
each imp(k != 1, KEPT(nc.description))
each imp(k == 2, nc.isRoot.isSet && nc.isRoot.valueType == 6 && content(nc.isRoot.oid) == xs)
each imp(k != 2, KEPT(nc.isRoot))
each imp(k == 3, nc.isOnline.isSet && nc.isOnline.valueType == 6 && content(nc.isOnline.oid) == xs)
each imp(k != 3, KEPT(nc.isOnline))
each imp(k == 4, nc.schemaIdentifiers.isSet && nc.schemaIdentifiers.valueType == 6 && content(nc.schemaIdentifiers.oid) == xs)
each imp(k != 4, KEPT(nc.schemaIdentifiers))
each nc.templateReference == old(nc.templateReference)
behavior template
prop C13
cutloops
ghost xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(nc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures content(nc.templateReference) == xs
ensures KEPTH(nc.identifier)
ensures KEPTH(nc.description)
ensures KEPTH(nc.isRoot)
ensures KEPTH(nc.isOnline)
ensures KEPTH(nc.schemaIdentifiers)
loop
given rest(reader) == cat(unit(160 + 5, 128, 13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each content(nc.templateReference) == xs
each KEPT(nc.identifier)
each KEPT(nc.description)
each KEPT(nc.isRoot)
each KEPT(nc.isOnline)
each KEPT(nc.schemaIdentifiers)

spec embertree.(*ParameterContents).Encode (contents, writer) (err)
behavior main
prop C13
uses piece
requires OIDOK(contents.templateReference)
modifies buf(writer)
ensures imp(err == nil, W(writer, cat(unit(49, 128), drop(head(buf(writer)), len(old(buf(writer))) + 2), OIDPIECE(18, contents.templateReference), unit(0, 0))))
ensures imp(err == nil, idx == 18)
ensures imp(err != nil, somecall("Encode"))
ensures imp(err != nil, imp(somecall("Encode"), lastcall("Encode", err) != nil))
loop vars i int
witness idx = 0 ; idx + 1
inv idx == i
inv idx == i + 1
inv idx <= 18
entry buf(writer) == cat(old(buf(writer)), unit(49, 128))
each imp(contents.table[old(idx)].isSet, carg("Encode", 0, ctxt) == old(idx) && SAMECP(carg("Encode", 0, cp), contents.table[old(idx)]))
each imp(contents.table[old(idx)].isSet, buf(writer) == cat(old(buf(writer)), capp("Encode", 0)))
each imp(!contents.table[old(idx)].isSet, buf(writer) == old(buf(writer)))

spec embertree.(*ParameterContents).Decode (pc, reader) (err)
behavior wireempty
prop C13
explicit
ghost t seq
match rest(reader) == cat(unit(49, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil
ensures rest(reader) == t
behavior string
prop C13
uses wirestring
cutloops
ghost k int, j int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 18 && 0 <= j && j < 18 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(pc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures pc.table[k].isSet && pc.table[k].valueType == 1 && pc.table[k].stringVal == s
ensures KEPTH(pc.table[j])
ensures pc.templateReference == head(pc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(12), LEN(len(s)), s, unit(0, 0), t)
given TAKES(pc.table[k], 1)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each pc.table[k].isSet && pc.table[k].valueType == 1 && pc.table[k].stringVal == s
each KEPT(pc.table[j])
each pc.templateReference == old(pc.templateReference)
behavior bool
prop C13
uses wirebool
cutloops
ghost k int, j int, x bool, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 18 && 0 <= j && j < 18 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(pc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures pc.table[k].isSet && pc.table[k].valueType == 2 && eqv(pc.table[k].boolVal, x)
ensures KEPTH(pc.table[j])
ensures pc.templateReference == head(pc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(1, 1, ite(x, 255, 0)), unit(0, 0), t)
given TAKES(pc.table[k], 2)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each pc.table[k].isSet && pc.table[k].valueType == 2 && eqv(pc.table[k].boolVal, x)
each KEPT(pc.table[j])
each pc.templateReference == old(pc.templateReference)
behavior int
prop C13
uses wireint
cutloops
ghost k int, j int, i64 int64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 18 && 0 <= j && j < 18 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(pc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures pc.table[k].isSet && pc.table[k].valueType == 3 && eqv(pc.table[k].intVal, i64)
ensures KEPTH(pc.table[j])
ensures pc.templateReference == head(pc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(2), INTB(i64), unit(0, 0), t)
given TAKES(pc.table[k], 3)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each pc.table[k].isSet && pc.table[k].valueType == 3 && eqv(pc.table[k].intVal, i64)
each KEPT(pc.table[j])
each pc.templateReference == old(pc.templateReference)
behavior buffer
prop C13
uses wirebuffer
cutloops
ghost k int, j int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 18 && 0 <= j && j < 18 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(pc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures pc.table[k].isSet && pc.table[k].valueType == 4 && content(pc.table[k].bufferVal) == s
ensures KEPTH(pc.table[j])
ensures pc.templateReference == head(pc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(3), LEN(len(s)), s, unit(0, 0), t)
given TAKES(pc.table[k], 4)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each pc.table[k].isSet && pc.table[k].valueType == 4 && content(pc.table[k].bufferVal) == s
each KEPT(pc.table[j])
each pc.templateReference == old(pc.templateReference)
behavior real
prop C13
uses wirereal
cutloops
ghost k int, j int, x float64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 18 && 0 <= j && j < 18 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(pc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures pc.table[k].isSet && pc.table[k].valueType == 5 && ((fnan(x) && fnan(pc.table[k].realVal)) || feq(x, pc.table[k].realVal))
ensures KEPTH(pc.table[j])
ensures pc.templateReference == head(pc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(9), REALB(x), unit(0, 0), t)
given TAKES(pc.table[k], 5)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each pc.table[k].isSet && pc.table[k].valueType == 5 && ((fnan(x) && fnan(pc.table[k].realVal)) || feq(x, pc.table[k].realVal))
each KEPT(pc.table[j])
each pc.templateReference == old(pc.templateReference)
behavior oid
prop C13
uses wireoid
cutloops
ghost k int, j int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 18 && 0 <= j && j < 18 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader), fields(pc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures pc.table[k].isSet && pc.table[k].valueType == 6 && content(pc.table[k].oid) == xs
ensures KEPTH(pc.table[j])
ensures pc.templateReference == head(pc.templateReference)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
given TAKES(pc.table[k], 6)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each pc.table[k].isSet && pc.table[k].valueType == 6 && content(pc.table[k].oid) == xs
each KEPT(pc.table[j])
each pc.templateReference == old(pc.templateReference)
behavior template
prop C13
cutloops
ghost j int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires 0 <= j && j < 18
modifies rest(reader), fields(pc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures content(pc.templateReference) == xs
ensures KEPTH(pc.table[j])
loop
given rest(reader) == cat(unit(160 + 18, 128, 13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each content(pc.templateReference) == xs
each KEPT(pc.table[j])

spec embertree.(*MatrixContent).Encode (c, writer) (err)
behavior main
prop C13
uses piece
requires OIDOK(c.templateReference)
requires forall(k, 0, len(c.labels), c.labels[k] != nil && LABOK(c.labels[k]))
modifies buf(writer)
ensures imp(err == nil, W(writer, cat(unit(49, 128), drop(head(buf(writer)), len(old(buf(writer))) + 2), capp("EncodeLabels", 0), lapp("Encode"), OIDPIECE(12, c.templateReference), unit(0, 0))))
ensures imp(err == nil, imp(c.schemaIdentifier.isSet, lastcall("Encode", ctxt) == 11 && SAMECP(lastcall("Encode", cp), c.schemaIdentifier)))
ensures imp(err == nil, carg("EncodeLabels", 0, c) == c)
ensures imp(err == nil, idx == 10)
ensures imp(err != nil, somecall("Encode"))
ensures imp(err != nil, imp(somecall("Encode"), lastcall("Encode", err) != nil))
loop vars i int
witness idx = 0 ; idx + 1
inv idx == i
inv idx == i + 1
inv idx <= 10
entry buf(writer) == cat(old(buf(writer)), unit(49, 128))
each imp(c.table[old(idx)].isSet, carg("Encode", 0, ctxt) == old(idx) && SAMECP(carg("Encode", 0, cp), c.table[old(idx)]))
each imp(c.table[old(idx)].isSet, buf(writer) == cat(old(buf(writer)), capp("Encode", 0)))
each imp(!c.table[old(idx)].isSet, buf(writer) == old(buf(writer)))

spec embertree.(*MatrixContent).Decode (c, reader) (err)
behavior wireempty
prop C13
explicit
ghost t seq
match rest(reader) == cat(unit(49, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil
ensures rest(reader) == t
behavior string
prop C13
uses wirestring
cutloops
ghost k int, j int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 10 && 0 <= j && j < 10 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.table[k].isSet && c.table[k].valueType == 1 && c.table[k].stringVal == s
ensures KEPTH(c.table[j])
ensures c.templateReference == head(c.templateReference)
ensures c.labels == head(c.labels)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(12), LEN(len(s)), s, unit(0, 0), t)
given TAKES(c.table[k], 1)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.table[k].isSet && c.table[k].valueType == 1 && c.table[k].stringVal == s
each KEPT(c.table[j])
each c.templateReference == old(c.templateReference)
each c.labels == old(c.labels)
behavior bool
prop C13
uses wirebool
cutloops
ghost k int, j int, x bool, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 10 && 0 <= j && j < 10 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.table[k].isSet && c.table[k].valueType == 2 && eqv(c.table[k].boolVal, x)
ensures KEPTH(c.table[j])
ensures c.templateReference == head(c.templateReference)
ensures c.labels == head(c.labels)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(1, 1, ite(x, 255, 0)), unit(0, 0), t)
given TAKES(c.table[k], 2)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.table[k].isSet && c.table[k].valueType == 2 && eqv(c.table[k].boolVal, x)
each KEPT(c.table[j])
each c.templateReference == old(c.templateReference)
each c.labels == old(c.labels)
behavior int
prop C13
uses wireint
cutloops
ghost k int, j int, i64 int64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 10 && 0 <= j && j < 10 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.table[k].isSet && c.table[k].valueType == 3 && eqv(c.table[k].intVal, i64)
ensures KEPTH(c.table[j])
ensures c.templateReference == head(c.templateReference)
ensures c.labels == head(c.labels)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(2), INTB(i64), unit(0, 0), t)
given TAKES(c.table[k], 3)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.table[k].isSet && c.table[k].valueType == 3 && eqv(c.table[k].intVal, i64)
each KEPT(c.table[j])
each c.templateReference == old(c.templateReference)
each c.labels == old(c.labels)
behavior buffer
prop C13
uses wirebuffer
cutloops
ghost k int, j int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 10 && 0 <= j && j < 10 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.table[k].isSet && c.table[k].valueType == 4 && content(c.table[k].bufferVal) == s
ensures KEPTH(c.table[j])
ensures c.templateReference == head(c.templateReference)
ensures c.labels == head(c.labels)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(3), LEN(len(s)), s, unit(0, 0), t)
given TAKES(c.table[k], 4)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.table[k].isSet && c.table[k].valueType == 4 && content(c.table[k].bufferVal) == s
each KEPT(c.table[j])
each c.templateReference == old(c.templateReference)
each c.labels == old(c.labels)
behavior real
prop C13
uses wirereal
cutloops
ghost k int, j int, x float64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 10 && 0 <= j && j < 10 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.table[k].isSet && c.table[k].valueType == 5 && ((fnan(x) && fnan(c.table[k].realVal)) || feq(x, c.table[k].realVal))
ensures KEPTH(c.table[j])
ensures c.templateReference == head(c.templateReference)
ensures c.labels == head(c.labels)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(9), REALB(x), unit(0, 0), t)
given TAKES(c.table[k], 5)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.table[k].isSet && c.table[k].valueType == 5 && ((fnan(x) && fnan(c.table[k].realVal)) || feq(x, c.table[k].realVal))
each KEPT(c.table[j])
each c.templateReference == old(c.templateReference)
each c.labels == old(c.labels)
behavior oid
prop C13
uses wireoid
cutloops
ghost k int, j int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < 10 && 0 <= j && j < 10 && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.table[k].isSet && c.table[k].valueType == 6 && content(c.table[k].oid) == xs
ensures KEPTH(c.table[j])
ensures c.templateReference == head(c.templateReference)
ensures c.labels == head(c.labels)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
given TAKES(c.table[k], 6)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.table[k].isSet && c.table[k].valueType == 6 && content(c.table[k].oid) == xs
each KEPT(c.table[j])
each c.templateReference == old(c.templateReference)
each c.labels == old(c.labels)
behavior template
prop C13
cutloops
ghost j int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires 0 <= j && j < 10
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures content(c.templateReference) == xs
ensures KEPTH(c.table[j])
ensures KEPTH(c.schemaIdentifier)
ensures c.labels == head(c.labels)
loop
given rest(reader) == cat(unit(160 + 12, 128, 13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each content(c.templateReference) == xs
each KEPT(c.table[j])
each KEPT(c.schemaIdentifier)
each c.labels == old(c.labels)
behavior schemastring
prop C13
uses wirestring
cutloops
ghost j int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 1 && c.schemaIdentifier.stringVal == s
ensures KEPTH(c.table[j]) && c.labels == head(c.labels) && c.templateReference == head(c.templateReference)
loop
given rest(reader) == cat(unit(171, 128), unit(12), LEN(len(s)), s, unit(0, 0), t)
given TAKES(c.schemaIdentifier, 1)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 1 && c.schemaIdentifier.stringVal == s
each KEPT(c.table[j]) && c.labels == old(c.labels) && c.templateReference == old(c.templateReference)
behavior schemabool
prop C13
uses wirebool
cutloops
ghost j int, x bool, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 2 && eqv(c.schemaIdentifier.boolVal, x)
ensures KEPTH(c.table[j]) && c.labels == head(c.labels) && c.templateReference == head(c.templateReference)
loop
given rest(reader) == cat(unit(171, 128), unit(1, 1, ite(x, 255, 0)), unit(0, 0), t)
given TAKES(c.schemaIdentifier, 2)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 2 && eqv(c.schemaIdentifier.boolVal, x)
each KEPT(c.table[j]) && c.labels == old(c.labels) && c.templateReference == old(c.templateReference)
behavior schemaint
prop C13
uses wireint
cutloops
ghost j int, i64 int64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 3 && eqv(c.schemaIdentifier.intVal, i64)
ensures KEPTH(c.table[j]) && c.labels == head(c.labels) && c.templateReference == head(c.templateReference)
loop
given rest(reader) == cat(unit(171, 128), unit(2), INTB(i64), unit(0, 0), t)
given TAKES(c.schemaIdentifier, 3)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 3 && eqv(c.schemaIdentifier.intVal, i64)
each KEPT(c.table[j]) && c.labels == old(c.labels) && c.templateReference == old(c.templateReference)
behavior schemabuffer
prop C13
uses wirebuffer
cutloops
ghost j int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 4 && content(c.schemaIdentifier.bufferVal) == s
ensures KEPTH(c.table[j]) && c.labels == head(c.labels) && c.templateReference == head(c.templateReference)
loop
given rest(reader) == cat(unit(171, 128), unit(3), LEN(len(s)), s, unit(0, 0), t)
given TAKES(c.schemaIdentifier, 4)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 4 && content(c.schemaIdentifier.bufferVal) == s
each KEPT(c.table[j]) && c.labels == old(c.labels) && c.templateReference == old(c.templateReference)
behavior schemareal
prop C13
uses wirereal
cutloops
ghost j int, x float64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 5 && ((fnan(x) && fnan(c.schemaIdentifier.realVal)) || feq(x, c.schemaIdentifier.realVal))
ensures KEPTH(c.table[j]) && c.labels == head(c.labels) && c.templateReference == head(c.templateReference)
loop
given rest(reader) == cat(unit(171, 128), unit(9), REALB(x), unit(0, 0), t)
given TAKES(c.schemaIdentifier, 5)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 5 && ((fnan(x) && fnan(c.schemaIdentifier.realVal)) || feq(x, c.schemaIdentifier.realVal))
each KEPT(c.table[j]) && c.labels == old(c.labels) && c.templateReference == old(c.templateReference)
behavior schemaoid
prop C13
uses wireoid
cutloops
ghost j int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 6 && content(c.schemaIdentifier.oid) == xs
ensures KEPTH(c.table[j]) && c.labels == head(c.labels) && c.templateReference == head(c.templateReference)
loop
given rest(reader) == cat(unit(171, 128), unit(13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
given TAKES(c.schemaIdentifier, 6)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 6 && content(c.schemaIdentifier.oid) == xs
each KEPT(c.table[j]) && c.labels == old(c.labels) && c.templateReference == old(c.templateReference)
behavior labels
prop C13
cutloops
ghost j int, u seq, z seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
modifies rest(reader), fields(c)
ensures KEPTH(c.table[j]) && KEPTH(c.schemaIdentifier) && c.templateReference == head(c.templateReference)
ensures somecall("DecodeLabels")
ensures imp(somecall("DecodeLabels"), lastcall("DecodeLabels", c) == c && cpre("DecodeLabels", 0 - 1, rest(arg(reader))) == z)
ensures imp(somecall("DecodeLabels"), imp(lastcall("DecodeLabels", err) != nil, err != nil))
ensures imp(somecall("DecodeLabels"), imp(err == nil, rest(reader) == drop(cpost("DecodeLabels", 0 - 1, rest(arg(reader))), 2)))
ensures imp(somecall("DecodeLabels"), imp(lastcall("DecodeLabels", err) == nil, imp(FIELDOK(cpost("DecodeLabels", 0 - 1, rest(arg(reader)))), err == nil)))
loop
given rest(reader) == z && len(z) >= 2 && at(z, 0) == 170
entry rest(reader) == u
each KEPT(c.table[j]) && KEPT(c.schemaIdentifier) && c.templateReference == old(c.templateReference)
each ncalls("DecodeLabels") == 1 && carg("DecodeLabels", 0, c) == c && cpre("DecodeLabels", 0, rest(arg(reader))) == z && cres("DecodeLabels", 0, err) == nil
each rest(reader) == cpost("DecodeLabels", 0, rest(arg(reader)))

spec embertree.(*TupleDescription).Encode (tuple, writer) (err)
behavior main
prop C13
requires len(tuple.Name) < 4294967296
modifies buf(writer)
ensures err == nil
ensures W(writer, TUPLE(tuple.Type, tuple.Name))

spec embertree.(*TupleDescription).Decode (tuple, reader) (err)
behavior wire
prop C13
explicit
ghost n int, s seq, t seq
match rest(reader) == cat(TUPLE(n, s), t)
requires 0 <= n && n <= 255 && len(s) < 4294967280
modifies rest(reader), fields(tuple)
ensures err == nil && tuple.Type == n && tuple.Name == s
ensures rest(reader) == t

spec embertree.encodeTupleDescriptions (ctxt, tuples, writer) (err)
behavior main
prop C13
cutloops
requires forall(k, 0, len(tuples), tuples[k] != nil && len(tuples[k].Name) < 4294967296)
requires 160 <= ctxt && ctxt < 191
modifies buf(writer)
ensures err == nil
ensures appends(writer)
ensures k == len(tuples) && buf(writer) == cat(head(buf(writer)), unit(0, 0, 0, 0))
loop vars i int
witness k = 0 ; k + 1
inv k == i
inv k == i + 1
inv k <= len(tuples)
entry buf(writer) == cat(old(buf(writer)), unit(ctxt, 128, 48, 128))
each W(writer, cat(unit(160, 128), TUPLE(tuples[k].Type, tuples[k].Name), unit(0, 0)))

spec embertree.decodeTupleDescriptions (reader) (list, err)
behavior wireempty
prop C13
explicit
uses wire
ghost t seq
match rest(reader) == cat(unit(48, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil && len(list) == 0
ensures rest(reader) == t
behavior tuple
prop C13
uses wire
cutloops
ghost n int, s seq, t seq, u seq
match rest(reader) == cat(unit(48, 128), u)
requires 0 <= n && n <= 255 && len(s) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader)
ensures err == nil && ENDS(t) && ONEMORE(list, arguments)
ensures list[len(arguments)].Type == n && list[len(arguments)].Name == s
ensures rest(reader) == drop(t, 2)
loop vars arguments []*embertree.TupleDescription
given rest(reader) == cat(unit(160, 128), TUPLE(n, s), unit(0, 0), t)
entry rest(reader) == u && len(arguments) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(arguments), arguments)
each next(arguments)[len(arguments)].Type == n && next(arguments)[len(arguments)].Name == s

spec embertree.(*FunctionContents).Encode (fc, writer) (err)
behavior main
prop C13
uses piece
requires forall(k, 0, len(fc.arguments), fc.arguments[k] != nil && len(fc.arguments[k].Name) < 4294967296)
requires forall(k, 0, len(fc.result), fc.result[k] != nil && len(fc.result[k].Name) < 4294967296)
modifies buf(writer)
ensures imp(err == nil, W(writer, cat(unit(49, 128), cfor("Encode", cp, fc.identifier, ctxt, 0), cfor("Encode", cp, fc.description, ctxt, 1), cfor("encodeTupleDescriptions", ctxt, 162), cfor("encodeTupleDescriptions", ctxt, 163), unit(0, 0))))
ensures imp(err == nil, ncalls("encodeTupleDescriptions") == ite(len(fc.arguments) > 0, 1, 0) + ite(len(fc.result) > 0, 1, 0))
ensures imp(err == nil, imp(len(fc.arguments) > 0, carg("encodeTupleDescriptions", 0, tuples) == fc.arguments && carg("encodeTupleDescriptions", 0, ctxt) == 162))
ensures imp(err == nil, imp(len(fc.result) > 0, lastcall("encodeTupleDescriptions", tuples) == fc.result && lastcall("encodeTupleDescriptions", ctxt) == 163))
ensures imp(err != nil, somecall("Encode"))
ensures imp(err != nil, imp(somecall("Encode"), lastcall("Encode", err) != nil))

spec embertree.(*FunctionContents).Decode (fc, reader) (err)
behavior string
prop C13
uses wirestring
cutloops
ghost k int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(fc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 1 && fc.identifier.stringVal == s)
ensures imp(k != 0, KEPTH(fc.identifier))
ensures imp(k == 1, fc.description.isSet && fc.description.valueType == 1 && fc.description.stringVal == s)
ensures imp(k != 1, KEPTH(fc.description))
ensures fc.arguments == head(fc.arguments) && fc.result == head(fc.result)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(12), LEN(len(s)), s, unit(0, 0), t)
given imp(k == 0, TAKES(fc.identifier, 1))
given imp(k == 1, TAKES(fc.description, 1))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each fc.arguments == old(fc.arguments) && fc.result == old(fc.result)
each imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 1 && fc.identifier.stringVal == s)
each imp(k != 0, KEPT(fc.identifier))
each imp(k == 1, fc.description.isSet && fc.description.valueType == 1 && fc.description.stringVal == s)
each imp(k != 1, KEPT(fc.description))
behavior bool
prop C13
uses wirebool
cutloops
ghost k int, x bool, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(fc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 2 && eqv(fc.identifier.boolVal, x))
ensures imp(k != 0, KEPTH(fc.identifier))
ensures imp(k == 1, fc.description.isSet && fc.description.valueType == 2 && eqv(fc.description.boolVal, x))
ensures imp(k != 1, KEPTH(fc.description))
ensures fc.arguments == head(fc.arguments) && fc.result == head(fc.result)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(1, 1, ite(x, 255, 0)), unit(0, 0), t)
given imp(k == 0, TAKES(fc.identifier, 2))
given imp(k == 1, TAKES(fc.description, 2))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each fc.arguments == old(fc.arguments) && fc.result == old(fc.result)
each imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 2 && eqv(fc.identifier.boolVal, x))
each imp(k != 0, KEPT(fc.identifier))
each imp(k == 1, fc.description.isSet && fc.description.valueType == 2 && eqv(fc.description.boolVal, x))
each imp(k != 1, KEPT(fc.description))
behavior int
prop C13
uses wireint
cutloops
ghost k int, i64 int64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(fc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 3 && eqv(fc.identifier.intVal, i64))
ensures imp(k != 0, KEPTH(fc.identifier))
ensures imp(k == 1, fc.description.isSet && fc.description.valueType == 3 && eqv(fc.description.intVal, i64))
ensures imp(k != 1, KEPTH(fc.description))
ensures fc.arguments == head(fc.arguments) && fc.result == head(fc.result)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(2), INTB(i64), unit(0, 0), t)
given imp(k == 0, TAKES(fc.identifier, 3))
given imp(k == 1, TAKES(fc.description, 3))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each fc.arguments == old(fc.arguments) && fc.result == old(fc.result)
each imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 3 && eqv(fc.identifier.intVal, i64))
each imp(k != 0, KEPT(fc.identifier))
each imp(k == 1, fc.description.isSet && fc.description.valueType == 3 && eqv(fc.description.intVal, i64))
each imp(k != 1, KEPT(fc.description))
behavior buffer
prop C13
uses wirebuffer
cutloops
ghost k int, s seq, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires len(s) < 4294967280
modifies rest(reader), fields(fc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 4 && content(fc.identifier.bufferVal) == s)
ensures imp(k != 0, KEPTH(fc.identifier))
ensures imp(k == 1, fc.description.isSet && fc.description.valueType == 4 && content(fc.description.bufferVal) == s)
ensures imp(k != 1, KEPTH(fc.description))
ensures fc.arguments == head(fc.arguments) && fc.result == head(fc.result)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(3), LEN(len(s)), s, unit(0, 0), t)
given imp(k == 0, TAKES(fc.identifier, 4))
given imp(k == 1, TAKES(fc.description, 4))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each fc.arguments == old(fc.arguments) && fc.result == old(fc.result)
each imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 4 && content(fc.identifier.bufferVal) == s)
each imp(k != 0, KEPT(fc.identifier))
each imp(k == 1, fc.description.isSet && fc.description.valueType == 4 && content(fc.description.bufferVal) == s)
each imp(k != 1, KEPT(fc.description))
behavior real
prop C13
uses wirereal
cutloops
ghost k int, x float64, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader), fields(fc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 5 && ((fnan(x) && fnan(fc.identifier.realVal)) || feq(x, fc.identifier.realVal)))
ensures imp(k != 0, KEPTH(fc.identifier))
ensures imp(k == 1, fc.description.isSet && fc.description.valueType == 5 && ((fnan(x) && fnan(fc.description.realVal)) || feq(x, fc.description.realVal)))
ensures imp(k != 1, KEPTH(fc.description))
ensures fc.arguments == head(fc.arguments) && fc.result == head(fc.result)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(9), REALB(x), unit(0, 0), t)
given imp(k == 0, TAKES(fc.identifier, 5))
given imp(k == 1, TAKES(fc.description, 5))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each fc.arguments == old(fc.arguments) && fc.result == old(fc.result)
each imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 5 && ((fnan(x) && fnan(fc.identifier.realVal)) || feq(x, fc.identifier.realVal)))
each imp(k != 0, KEPT(fc.identifier))
each imp(k == 1, fc.description.isSet && fc.description.valueType == 5 && ((fnan(x) && fnan(fc.description.realVal)) || feq(x, fc.description.realVal)))
each imp(k != 1, KEPT(fc.description))
behavior oid
prop C13
uses wireoid
cutloops
ghost k int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader), fields(fc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 6 && content(fc.identifier.oid) == xs)
ensures imp(k != 0, KEPTH(fc.identifier))
ensures imp(k == 1, fc.description.isSet && fc.description.valueType == 6 && content(fc.description.oid) == xs)
ensures imp(k != 1, KEPTH(fc.description))
ensures fc.arguments == head(fc.arguments) && fc.result == head(fc.result)
loop
given rest(reader) == cat(unit(160 + k, 128), unit(13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
given imp(k == 0, TAKES(fc.identifier, 6))
given imp(k == 1, TAKES(fc.description, 6))
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each fc.arguments == old(fc.arguments) && fc.result == old(fc.result)
each imp(k == 0, fc.identifier.isSet && fc.identifier.valueType == 6 && content(fc.identifier.oid) == xs)
each imp(k != 0, KEPT(fc.identifier))
each imp(k == 1, fc.description.isSet && fc.description.valueType == 6 && content(fc.description.oid) == xs)
each imp(k != 1, KEPT(fc.description))
behavior arguments
prop C13
cutloops
ghost u seq, z seq
match rest(reader) == cat(unit(49, 128), u)
requires len(u) >= 2 && !ENDS(u)
modifies rest(reader), fields(fc)
ensures KEPTH(fc.identifier) && KEPTH(fc.description) && fc.result == head(fc.result)
ensures somecall("decodeTupleDescriptions")
ensures imp(somecall("decodeTupleDescriptions"), cpre("decodeTupleDescriptions", 0 - 1, rest(arg(reader))) == z)
ensures imp(somecall("decodeTupleDescriptions"), imp(lastcall("decodeTupleDescriptions", err) != nil, err != nil))
ensures imp(somecall("decodeTupleDescriptions"), imp(err == nil, fc.arguments == lastcall("decodeTupleDescriptions", list)))
ensures imp(somecall("decodeTupleDescriptions"), imp(err == nil, rest(reader) == drop(cpost("decodeTupleDescriptions", 0 - 1, rest(arg(reader))), 4)))
loop
given rest(reader) == cat(unit(162, 128), z)
entry rest(reader) == u
each KEPT(fc.identifier) && KEPT(fc.description) && fc.result == old(fc.result)
each ncalls("decodeTupleDescriptions") == 1 && cpre("decodeTupleDescriptions", 0, rest(arg(reader))) == z && cres("decodeTupleDescriptions", 0, err) == nil
each fc.arguments == cres("decodeTupleDescriptions", 0, list)
each rest(reader) == drop(cpost("decodeTupleDescriptions", 0, rest(arg(reader))), 2)
behavior result
prop C13
cutloops
ghost u seq, z seq
match rest(reader) == cat(unit(49, 128), u)
requires len(u) >= 2 && !ENDS(u)
modifies rest(reader), fields(fc)
ensures KEPTH(fc.identifier) && KEPTH(fc.description) && fc.arguments == head(fc.arguments)
ensures somecall("decodeTupleDescriptions")
ensures imp(somecall("decodeTupleDescriptions"), cpre("decodeTupleDescriptions", 0 - 1, rest(arg(reader))) == z)
ensures imp(somecall("decodeTupleDescriptions"), imp(lastcall("decodeTupleDescriptions", err) != nil, err != nil))
ensures imp(somecall("decodeTupleDescriptions"), imp(err == nil, fc.result == lastcall("decodeTupleDescriptions", list)))
ensures imp(somecall("decodeTupleDescriptions"), imp(err == nil, rest(reader) == drop(cpost("decodeTupleDescriptions", 0 - 1, rest(arg(reader))), 4)))
loop
given rest(reader) == cat(unit(163, 128), z)
entry rest(reader) == u
each KEPT(fc.identifier) && KEPT(fc.description) && fc.arguments == old(fc.arguments)
each ncalls("decodeTupleDescriptions") == 1 && cpre("decodeTupleDescriptions", 0, rest(arg(reader))) == z && cres("decodeTupleDescriptions", 0, err) == nil
each fc.result == cres("decodeTupleDescriptions", 0, list)
each rest(reader) == drop(cpost("decodeTupleDescriptions", 0, rest(arg(reader))), 2)
behavior wireempty
prop C13
explicit
ghost t seq
match rest(reader) == cat(unit(49, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil
ensures rest(reader) == t

spec embertree.(*NodeContents).SetIdentifier (contents, x) ()
behavior main
prop C13
modifies fields(contents)
ensures contents.identifier.isSet && contents.identifier.valueType == 1 && contents.identifier.stringVal == x
ensures KEPT(contents.description)
ensures KEPT(contents.isRoot)
ensures KEPT(contents.isOnline)
ensures KEPT(contents.schemaIdentifiers)
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*NodeContents).GetIdentifier (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.identifier.isSet && contents.identifier.valueType == 1)
ensures imp(err == nil, contents.identifier.stringVal == x)

spec embertree.(*NodeContents).SetDescription (contents, x) ()
behavior main
prop C13
modifies fields(contents)
ensures contents.description.isSet && contents.description.valueType == 1 && contents.description.stringVal == x
ensures KEPT(contents.identifier)
ensures KEPT(contents.isRoot)
ensures KEPT(contents.isOnline)
ensures KEPT(contents.schemaIdentifiers)
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*NodeContents).GetDescription (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.description.isSet && contents.description.valueType == 1)
ensures imp(err == nil, contents.description.stringVal == x)

spec embertree.(*NodeContents).SetIsRoot (contents, x) ()
behavior main
prop C13
modifies fields(contents)
ensures contents.isRoot.isSet && contents.isRoot.valueType == 2 && eqv(contents.isRoot.boolVal, x)
ensures KEPT(contents.identifier)
ensures KEPT(contents.description)
ensures KEPT(contents.isOnline)
ensures KEPT(contents.schemaIdentifiers)
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*NodeContents).GetIsRoot (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.isRoot.isSet && contents.isRoot.valueType == 2)
ensures imp(err == nil, eqv(contents.isRoot.boolVal, x))

spec embertree.(*NodeContents).SetIsOnline (contents, x) ()
behavior main
prop C13
modifies fields(contents)
ensures contents.isOnline.isSet && contents.isOnline.valueType == 2 && eqv(contents.isOnline.boolVal, x)
ensures KEPT(contents.identifier)
ensures KEPT(contents.description)
ensures KEPT(contents.isRoot)
ensures KEPT(contents.schemaIdentifiers)
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*NodeContents).GetIsOnline (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.isOnline.isSet && contents.isOnline.valueType == 2)
ensures imp(err == nil, eqv(contents.isOnline.boolVal, x))

spec embertree.(*NodeContents).SetSchemaIdentifiers (contents, x) ()
behavior main
prop C13
modifies fields(contents)
ensures contents.schemaIdentifiers.isSet && contents.schemaIdentifiers.valueType == 1 && contents.schemaIdentifiers.stringVal == x
ensures KEPT(contents.identifier)
ensures KEPT(contents.description)
ensures KEPT(contents.isRoot)
ensures KEPT(contents.isOnline)
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*NodeContents).GetSchemaIdentifiers (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.schemaIdentifiers.isSet && contents.schemaIdentifiers.valueType == 1)
ensures imp(err == nil, contents.schemaIdentifiers.stringVal == x)

spec embertree.(*FunctionContents).SetIdentifier (contents, x) ()
behavior main
prop C13
modifies fields(contents)
ensures contents.identifier.isSet && contents.identifier.valueType == 1 && contents.identifier.stringVal == x
ensures KEPT(contents.description)
ensures contents.arguments == old(contents.arguments)
ensures contents.result == old(contents.result)

spec embertree.(*FunctionContents).GetIdentifier (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.identifier.isSet && contents.identifier.valueType == 1)
ensures imp(err == nil, contents.identifier.stringVal == x)

spec embertree.(*FunctionContents).SetDescription (contents, x) ()
behavior main
prop C13
modifies fields(contents)
ensures contents.description.isSet && contents.description.valueType == 1 && contents.description.stringVal == x
ensures KEPT(contents.identifier)
ensures contents.arguments == old(contents.arguments)
ensures contents.result == old(contents.result)

spec embertree.(*FunctionContents).GetDescription (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.description.isSet && contents.description.valueType == 1)
ensures imp(err == nil, contents.description.stringVal == x)

spec embertree.(*ParameterContents).SetIdentifier (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 0
modifies fields(contents)
ensures contents.table[0].isSet && contents.table[0].valueType == 1 && contents.table[0].stringVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetIdentifier (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[0].isSet && contents.table[0].valueType == 1)
ensures imp(err == nil, contents.table[0].stringVal == x)

spec embertree.(*ParameterContents).SetDescription (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 1
modifies fields(contents)
ensures contents.table[1].isSet && contents.table[1].valueType == 1 && contents.table[1].stringVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetDescription (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[1].isSet && contents.table[1].valueType == 1)
ensures imp(err == nil, contents.table[1].stringVal == x)

spec embertree.(*ParameterContents).SetAccess (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 5
modifies fields(contents)
ensures contents.table[5].isSet && contents.table[5].valueType == 1 && contents.table[5].stringVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetAccess (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[5].isSet && contents.table[5].valueType == 1)
ensures imp(err == nil, contents.table[5].stringVal == x)

spec embertree.(*ParameterContents).SetFormat (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 6
modifies fields(contents)
ensures contents.table[6].isSet && contents.table[6].valueType == 1 && contents.table[6].stringVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetFormat (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[6].isSet && contents.table[6].valueType == 1)
ensures imp(err == nil, contents.table[6].stringVal == x)

spec embertree.(*ParameterContents).SetEnumeration (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 7
modifies fields(contents)
ensures contents.table[7].isSet && contents.table[7].valueType == 1 && contents.table[7].stringVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetEnumeration (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[7].isSet && contents.table[7].valueType == 1)
ensures imp(err == nil, contents.table[7].stringVal == x)

spec embertree.(*ParameterContents).SetFactor (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 8
modifies fields(contents)
ensures contents.table[8].isSet && contents.table[8].valueType == 3 && contents.table[8].intVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetFactor (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[8].isSet && contents.table[8].valueType == 3)
ensures imp(err == nil, contents.table[8].intVal == x)

spec embertree.(*ParameterContents).SetOnline (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 9
modifies fields(contents)
ensures contents.table[9].isSet && contents.table[9].valueType == 2 && eqv(contents.table[9].boolVal, x)
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetOnline (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[9].isSet && contents.table[9].valueType == 2)
ensures imp(err == nil, eqv(contents.table[9].boolVal, x))

spec embertree.(*ParameterContents).SetFormula (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 10
modifies fields(contents)
ensures contents.table[10].isSet && contents.table[10].valueType == 1 && contents.table[10].stringVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetFormula (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[10].isSet && contents.table[10].valueType == 1)
ensures imp(err == nil, contents.table[10].stringVal == x)

spec embertree.(*ParameterContents).SetStep (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 11
modifies fields(contents)
ensures contents.table[11].isSet && contents.table[11].valueType == 3 && contents.table[11].intVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetStep (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[11].isSet && contents.table[11].valueType == 3)
ensures imp(err == nil, contents.table[11].intVal == x)

spec embertree.(*ParameterContents).SetType (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 13
modifies fields(contents)
ensures contents.table[13].isSet && contents.table[13].valueType == 1 && contents.table[13].stringVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetType (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[13].isSet && contents.table[13].valueType == 1)
ensures imp(err == nil, contents.table[13].stringVal == x)

spec embertree.(*ParameterContents).SetStreanIdentifier (contents, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 18 && j != 14
modifies fields(contents)
ensures contents.table[14].isSet && contents.table[14].valueType == 3 && contents.table[14].intVal == x
ensures KEPT(contents.table[j])
ensures contents.templateReference == old(contents.templateReference)

spec embertree.(*ParameterContents).GetStreamIdentifier (contents) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, contents.table[14].isSet && contents.table[14].valueType == 3)
ensures imp(err == nil, contents.table[14].intVal == x)

spec embertree.(*ParameterContents).GetValueObject (contents) (cp)
behavior main
prop C13
modifies nothing
ensures cp == contents.table[2]

spec embertree.(*ParameterContents).GetMinimumObject (contents) (cp)
behavior main
prop C13
modifies nothing
ensures cp == contents.table[3]

spec embertree.(*ParameterContents).GetMaximumObject (contents) (cp)
behavior main
prop C13
modifies nothing
ensures cp == contents.table[4]

spec embertree.(*ParameterContents).GetDefaultObject (contents) (cp)
behavior main
prop C13
modifies nothing
ensures cp == contents.table[12]

spec embertree.(*MatrixContent).SetIdentifier (c, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 0
modifies fields(c)
ensures c.table[0].isSet && c.table[0].valueType == 1 && c.table[0].stringVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetIdentifier (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[0].isSet && c.table[0].valueType == 1)
ensures imp(err == nil, c.table[0].stringVal == x)

spec embertree.(*MatrixContent).SetDescription (c, x) ()
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 1
modifies fields(c)
ensures c.table[1].isSet && c.table[1].valueType == 1 && c.table[1].stringVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetDescription (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[1].isSet && c.table[1].valueType == 1)
ensures imp(err == nil, c.table[1].stringVal == x)

spec embertree.(*MatrixContent).SetType (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 2
requires 0 <= x && x <= 2
modifies fields(c)
ensures err == nil
ensures c.table[2].isSet && c.table[2].valueType == 3 && c.table[2].intVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetType (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[2].isSet && c.table[2].valueType == 3)
ensures imp(err == nil && 0 <= c.table[2].intVal && c.table[2].intVal <= 2, c.table[2].intVal == x)

spec embertree.(*MatrixContent).SetMode (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 3
requires 0 <= x && x <= 1
modifies fields(c)
ensures err == nil
ensures c.table[3].isSet && c.table[3].valueType == 3 && c.table[3].intVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetMode (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[3].isSet && c.table[3].valueType == 3)
ensures imp(err == nil && 0 <= c.table[3].intVal && c.table[3].intVal <= 1, c.table[3].intVal == x)

spec embertree.(*MatrixContent).SetTargetCount (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 4
modifies fields(c)
ensures err == nil
ensures c.table[4].isSet && c.table[4].valueType == 3 && c.table[4].intVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetTargetCount (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[4].isSet && c.table[4].valueType == 3)
ensures imp(err == nil, c.table[4].intVal == x)

spec embertree.(*MatrixContent).SetSourceCount (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 5
modifies fields(c)
ensures err == nil
ensures c.table[5].isSet && c.table[5].valueType == 3 && c.table[5].intVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetSourceCount (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[5].isSet && c.table[5].valueType == 3)
ensures imp(err == nil, c.table[5].intVal == x)

spec embertree.(*MatrixContent).SetMaxTotalConnects (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 6
modifies fields(c)
ensures err == nil
ensures c.table[6].isSet && c.table[6].valueType == 3 && c.table[6].intVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetMaxTotalConnects (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[6].isSet && c.table[6].valueType == 3)
ensures imp(err == nil, c.table[6].intVal == x)

spec embertree.(*MatrixContent).SetMaxConnectsPerTarget (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 7
modifies fields(c)
ensures err == nil
ensures c.table[7].isSet && c.table[7].valueType == 3 && c.table[7].intVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetMaxConnectsPerTarget (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[7].isSet && c.table[7].valueType == 3)
ensures imp(err == nil, c.table[7].intVal == x)

spec embertree.(*MatrixContent).SetParameterLocation (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 8
modifies fields(c)
ensures err == nil
ensures c.table[8].isSet && c.table[8].valueType == 6 && eqv(c.table[8].oid, x)
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetParameterLocation (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[8].isSet && c.table[8].valueType == 6)
ensures imp(err == nil, eqv(c.table[8].oid, x))

spec embertree.(*MatrixContent).SetGainParameterNumber (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10 && j != 9
modifies fields(c)
ensures err == nil
ensures c.table[9].isSet && c.table[9].valueType == 3 && c.table[9].intVal == x
ensures KEPT(c.schemaIdentifier)
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetGainParameterNumber (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.table[9].isSet && c.table[9].valueType == 3)
ensures imp(err == nil, c.table[9].intVal == x)

spec embertree.(*MatrixContent).SetSchemaIdentifier (c, x) (err)
behavior main
prop C13
ghost j int
requires 0 <= j && j < 10
modifies fields(c)
ensures err == nil
ensures c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 1 && c.schemaIdentifier.stringVal == x
ensures KEPT(c.table[j])
ensures c.templateReference == old(c.templateReference)
ensures c.labels == old(c.labels)

spec embertree.(*MatrixContent).GetSchemaIdentifier (c) (x, err)
behavior main
prop C13
modifies nothing
ensures iff(err == nil, c.schemaIdentifier.isSet && c.schemaIdentifier.valueType == 1)
ensures imp(err == nil, c.schemaIdentifier.stringVal == x)

