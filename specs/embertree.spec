// ---------------------------------------------------------------- content values (C10)
// the type of the value last stored; a set value has a type, an unset one has none
define CPOK(cp) = iff(cp.isSet, cp.valueType != 0) && cp.valueType <= 6

spec embertree.NewContentParameter () (cp)
behavior main
prop C10
modifies nothing
returns cp fresh
ensures CPOK(cp) && !cp.isSet

spec embertree.(*ContentParameter).GetType (cp) (t)
behavior main
prop C10
modifies nothing
ensures t == cp.valueType

spec embertree.(*ContentParameter).IsSet (cp) (b)
behavior main
prop C10
modifies nothing
ensures b == cp.isSet

spec embertree.(*ContentParameter).GetString (cp) (v, err)
behavior main
prop C10
modifies nothing
returns err nil | fresh
ensures iff(err == nil, cp.isSet && cp.valueType == 1)
ensures imp(err == nil, v == cp.stringVal)

spec embertree.(*ContentParameter).SetString (cp, v)
behavior main
prop C10
modifies cp.stringVal, cp.isSet, cp.valueType
ensures cp.isSet && cp.valueType == 1 && cp.stringVal == v

spec embertree.(*ContentParameter).GetBool (cp) (v, err)
behavior main
prop C10
modifies nothing
returns err nil | fresh
ensures iff(err == nil, cp.isSet && cp.valueType == 2)
ensures imp(err == nil, eqv(v, cp.boolVal))

spec embertree.(*ContentParameter).SetBool (cp, v)
behavior main
prop C10
modifies cp.boolVal, cp.isSet, cp.valueType
ensures cp.isSet && cp.valueType == 2 && eqv(cp.boolVal, v)

spec embertree.(*ContentParameter).GetInt (cp) (v, err)
behavior main
prop C10
modifies nothing
returns err nil | fresh
ensures iff(err == nil, cp.isSet && cp.valueType == 3)
ensures imp(err == nil, eqv(v, cp.intVal))

spec embertree.(*ContentParameter).SetInt (cp, v)
behavior main
prop C10
modifies cp.intVal, cp.isSet, cp.valueType
ensures cp.isSet && cp.valueType == 3 && eqv(cp.intVal, v)

spec embertree.(*ContentParameter).GetBuffer (cp) (v, err)
behavior main
prop C10
modifies nothing
returns err nil | fresh
ensures iff(err == nil, cp.isSet && cp.valueType == 4)
ensures imp(err == nil, eqv(v, cp.bufferVal))

spec embertree.(*ContentParameter).SetBuffer (cp, v)
behavior main
prop C10
modifies cp.bufferVal, cp.isSet, cp.valueType
ensures cp.isSet && cp.valueType == 4 && eqv(cp.bufferVal, v)

spec embertree.(*ContentParameter).GetReal (cp) (v, err)
behavior main
prop C10
modifies nothing
returns err nil | fresh
ensures iff(err == nil, cp.isSet && cp.valueType == 5)
ensures imp(err == nil, eqv(v, cp.realVal))

spec embertree.(*ContentParameter).SetReal (cp, v)
behavior main
prop C10
modifies cp.realVal, cp.isSet, cp.valueType
ensures cp.isSet && cp.valueType == 5 && eqv(cp.realVal, v)

spec embertree.(*ContentParameter).GetRelativeOID (cp) (v, err)
behavior main
prop C10
modifies nothing
returns err nil | fresh
ensures iff(err == nil, cp.isSet && cp.valueType == 6)
ensures imp(err == nil, eqv(v, cp.oid))

spec embertree.(*ContentParameter).SetRelativeOID (cp, v)
behavior main
prop C10
modifies cp.oid, cp.isSet, cp.valueType
ensures cp.isSet && cp.valueType == 6 && eqv(cp.oid, v)

spec embertree.(*ContentParameter).Set (cp, val) (err)
behavior main
prop C10
requires CPOK(cp) && CPOK(val)
modifies fields(cp)
returns err nil | fresh
ensures iff(err == nil, old(cp.valueType) == 0 || old(cp.valueType) == old(val.valueType))
ensures CPOK(cp)
ensures imp(err == nil && old(val.valueType) != 0, cp.isSet && cp.valueType == old(val.valueType))
ensures imp(err == nil && old(val.valueType) == 1, cp.stringVal == old(val.stringVal))
ensures imp(err == nil && old(val.valueType) == 2, eqv(cp.boolVal, old(val.boolVal)))
ensures imp(err == nil && old(val.valueType) == 3, eqv(cp.intVal, old(val.intVal)))
ensures imp(err == nil && old(val.valueType) == 4, eqv(cp.bufferVal, old(val.bufferVal)))
ensures imp(err == nil && old(val.valueType) == 5, eqv(cp.realVal, old(val.realVal)))
ensures imp(err == nil && old(val.valueType) == 6, eqv(cp.oid, old(val.oid)))
ensures imp(err != nil, cp.isSet == old(cp.isSet) && cp.valueType == old(cp.valueType) && cp.stringVal == old(cp.stringVal) && eqv(cp.boolVal, old(cp.boolVal)) && eqv(cp.intVal, old(cp.intVal)) && eqv(cp.bufferVal, old(cp.bufferVal)) && eqv(cp.realVal, old(cp.realVal)) && eqv(cp.oid, old(cp.oid)))
ensures imp(val != cp, val.isSet == old(val.isSet) && val.valueType == old(val.valueType))

// ---------------------------------------------------------------- decoding of arbitrary octets (C08, C09)
invariant embertree.Element.logger: v != nil
invariant embertree.Element.Children: v != nil
invariant embertree.Element.listeners: v != nil
invariant embertree.RootElement.RootElementCollection: v != nil
invariant embertree.RootElement.logger: v != nil
invariant embertree.RootElement.listeners: v != nil

spec embertree.DecodeValue (reader, ctxt) (cp, err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader)
returns err nil | fresh
returns cp nil | fresh
ensures imp(err == nil, cp != nil && CPOK(cp))
ensures SHR(reader) && EATS(reader)

spec embertree.(*CommandContents).Decode (cc, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), cc.fieldFlags
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*Connection).SetDisposition (c, d) (err)
behavior main
prop C14 C08
modifies c.disposition
returns err nil | fresh
ensures iff(err == nil, 0 <= d && d <= 3)
ensures imp(err == nil, c.disposition == d)
ensures imp(err != nil, c.disposition == old(c.disposition))

spec embertree.(*Connection).SetOperation (c, d) (err)
behavior main
prop C14 C08
modifies c.operation
returns err nil | fresh
ensures iff(err == nil, 0 <= d && d <= 2)
ensures imp(err == nil, c.operation == d)
ensures imp(err != nil, c.operation == old(c.operation))

spec embertree.(*Connection).Decode (c, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), fields(c)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*Label).Decode (l, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), fields(l)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*TupleDescription).Decode (tuple, reader) (err)
behavior main
cutloops
prop C08 C09
uses safe
cutloops
modifies rest(reader), fields(tuple)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.decodeSignal (s, reader, ctxt) (err)
behavior target
prop C08 C09
uses safe
cutloops
requires istype(s, "*embertree.Target") && as(s, "*embertree.Target") != nil && ctxt == 110
modifies rest(reader), as(s, "*embertree.Target").Number
returns err nil | fresh
ensures SHR(reader) && EATS(reader)
behavior source
prop C08 C09
uses safe
cutloops
requires istype(s, "*embertree.Source") && as(s, "*embertree.Source") != nil && ctxt == 111
modifies rest(reader), as(s, "*embertree.Source").Number
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*ContentParameter).Set (cp, val) (err)
behavior safe
prop C08
explicit
modifies fields(cp)
returns err nil | fresh

spec embertree.decodeTupleDescriptions (reader) (list, err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*FunctionContents).Decode (fc, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), fields(fc)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*NodeContents).Decode (nc, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), fields(nc)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*ParameterContents).Decode (pc, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), fields(pc)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*MatrixContent).DecodeLabels (c, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), c.labels
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*MatrixContent).Decode (c, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), fields(c)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.DecodeLabel (reader) (l, err)
behavior main
prop C08 C09
uses safe
modifies rest(reader)
returns err nil | fresh
returns l fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*Target).Decode (t, reader) (err)
behavior main
prop C08 C09
uses safe
modifies rest(reader), t.Number
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*Source).Decode (s, reader) (err)
behavior main
prop C08 C09
uses safe
modifies rest(reader), s.Number
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.DecodeSignal (reader) (s, err)
behavior main
prop C08 C09
uses safe
modifies rest(reader)
returns err nil | fresh
ensures imp(err == nil, s != nil)
ensures SHR(reader) && EATS(reader)

spec embertree.DeodeSignals (reader, ctxt) (list, err)
behavior main
prop C08 C09
uses safe
cutloops
requires ctxt != 0
modifies rest(reader)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*Element).DecodeTargets (element, reader) (err)
behavior main
prop C08 C09
uses safe
modifies rest(reader), element.targets
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*Element).DecodeSources (element, reader) (err)
behavior main
prop C08 C09
uses safe
modifies rest(reader), element.sources
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*Element).DecodeConnections (element, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), element.connections
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.(*Invocation).Decode (i, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
modifies rest(reader), fields(i)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

// ---------------------------------------------------------------- elements
mapinvariant map[int]*embertree.Element: v != nil
mapinvariant map[string]*embertree.Element: v != nil
mapinvariant map[embertree.Listener]embertree.Listener: v != nil && eqv(v, k)

spec embertree.NewElement (tag, number, contentsCreator) (e)
behavior main
prop C08 C13
modifies nothing
returns e fresh(Children, listeners)
ensures len(e.Children) == 0 && len(e.listeners) == 0
ensures e.tag == tag && e.Number == number && e.parent == nil && e.contents == nil && !e.isQualified && !e.isMatrix && len(e.path) == 0
ensures isnil(e.path) && len(e.targets) == 0 && len(e.sources) == 0 && len(e.connections) == 0

spec embertree.(*Element).SetContents (element, contents) (err)
behavior quiet
prop C08
requires len(element.listeners) == 0
requires implements(contents, "embertree.EmberContents")
emits 0
modifies element.contents
returns err nil

spec embertree.Path2String (path) (s)
behavior main
prop C08
modifies nothing

spec embertree.(*Element).GetPath (element) (path)
behavior main
prop C08 C16
partial
modifies nothing

spec embertree.IsQualifiedTag (tag) (q)
behavior main
prop C08 C16
modifies nothing
ensures iff(q, tag == 105 || tag == 106 || tag == 113 || tag == 116)

spec embertree.getContentCreator (tag) (cc, err)
behavior main
prop C08
modifies nothing
returns err nil | fresh
ensures iff(err == nil, tag == 97 || tag == 98 || tag == 99 || tag == 109 || tag == 115 || tag == 105 || tag == 106 || tag == 113 || tag == 116)

spec embertree.NewMatrixContent (mtype, mode) (mc, err)
behavior main
prop C08
modifies nothing
returns err nil | fresh
returns mc nil | fresh
ensures iff(err == nil, mc != nil)
ensures iff(err == nil, 0 <= mtype && mtype <= 2 && 0 <= mode && mode <= 1)

spec embertree.decodeContents (element, ctxt, reader) (contents, err)
behavior main
prop C08 C09
uses safe
requires ctxt != 0
modifies rest(reader)
returns err nil | fresh
ensures imp(err == nil, implements(contents, "embertree.EmberContents"))
ensures SHR(reader) && EATS(reader)

spec embertree.NewMatrix (number, mtype, mode) (e, err)
behavior main
prop C08
modifies nothing
returns err nil | fresh
returns e nil | fresh(Children, listeners)
ensures iff(err == nil, e != nil)
ensures iff(err == nil, 0 <= mtype && mtype <= 2 && 0 <= mode && mode <= 1)
ensures imp(err == nil, len(e.Children) == 0 && len(e.listeners) == 0 && e.parent == nil && e.isMatrix && !e.isQualified)

spec embertree.NewQualifiedElement (tag, path, contentCreator) (q)
behavior main
prop C08 C13
modifies nothing
returns q nil | fresh(Children, listeners)
ensures iff(q == nil, len(path) == 0)
ensures imp(q != nil, len(q.Children) == 0 && len(q.listeners) == 0 && q.parent == nil && !q.isMatrix && q.isQualified && q.tag == tag && eqv(q.path, path) && q.contents == nil)
ensures imp(q != nil, q.Number == at(path, len(path) - 1))

spec embertree.NewQualifiedMatrix (path, mtype, mode) (q)
behavior main
prop C08
modifies nothing
returns q nil | fresh(Children, listeners)
ensures iff(q == nil, len(path) == 0)
ensures imp(q != nil, len(q.Children) == 0 && len(q.listeners) == 0 && q.parent == nil && q.isMatrix && q.isQualified)

spec embertree.(*Element).SetParent (element, parent) (err)
behavior main
prop C08 C15
nilable parent
modifies element.parent, element.path
returns err nil
ensures element.parent == parent
ensures imp(element.isQualified, eqv(element.path, old(element.path)))
ensures imp(!element.isQualified, len(element.path) == 0)

spec embertree.(*Element).AddChild (element, child) (err)
behavior main
prop C08 C15
modifies mapat(element.Children, child.Number), child.parent, child.path
returns err nil
ensures element.Children[child.Number] == child && child.parent == element
ensures has(element.Children, child.Number)
ensures len(element.Children) == old(len(element.Children)) + ite(old(has(element.Children, child.Number)), 0, 1)
ensures imp(child.isQualified, eqv(child.path, old(child.path)))

spec embertree.decodeChildren (ctxt, element, reader) (err)
behavior main
prop C08 C09
uses safe
cutloops
requires ctxt != 0
decreases nz(rest(reader))
modifies rest(reader), mapof(element.Children)
returns err nil | fresh
ensures SHR(reader) && EATS(reader)

spec embertree.DecodeElement (reader) (e, err)
behavior main
prop C08 C09
uses safe
cutloops
decreases nz(rest(reader))
modifies rest(reader)
returns err nil | fresh
returns e nil | fresh(Children, listeners)
ensures imp(err == nil, e != nil)
ensures SHR(reader) && EATS(reader)

// ---------------------------------------------------------------- tree
spec embertree.NewTree () (root)
behavior main
prop C08 C13
modifies nothing
ensures isfresh(root) && isfresh(root.RootElementCollection) && isfresh(root.listeners)
ensures len(root.RootElementCollection) == 0 && len(root.listeners) == 0

spec embertree.NewRoot () (root)
behavior main
prop C08 C13
modifies nothing
ensures isfresh(root) && isfresh(root.RootElementCollection) && isfresh(root.listeners)
ensures len(root.RootElementCollection) == 0 && len(root.listeners) == 0

spec embertree.(*RootElement).AddElement (root, element)
behavior main
prop C08 C15
modifies mapat(root.RootElementCollection, element.Number)
ensures root.RootElementCollection[element.Number] == element
ensures has(root.RootElementCollection, element.Number)
ensures len(root.RootElementCollection) == old(len(root.RootElementCollection)) + ite(old(has(root.RootElementCollection, element.Number)), 0, 1)

spec embertree.(*RootElement).GetElementByNumber (root, number) (e)
behavior main
prop C08 C16
modifies nothing
ensures e == root.RootElementCollection[number]

spec embertree.(*RootElement).GetElementByPath (root, path) (parent, e)
behavior main
prop C08 C16
modifies nothing
ensures imp(len(path) == 0, parent == nil && e == nil)
ensures imp(len(path) == 1, parent == nil && e == root.RootElementCollection[at(path, 0)])
loop vars parent *embertree.Element, pos int
inv imp(pos == 1, parent == nil)
loop vars element *embertree.Element, pos int
inv imp(pos == 1, element == root.RootElementCollection[at(path, 0)])

spec embertree.(*Element).updateListeners (element, err)
behavior quiet
prop C08
emits 0
nilable err
requires len(element.listeners) == 0
modifies nothing
behavior main
prop C08 C24
emits *
nilable err
modifies nothing

spec embertree.(*Element).Update (element, newElement) (err)
behavior main
prop C08 C15
emits *
partial
modifies every("embertree.Element.contents"), every("embertree.Element.parent"), every("embertree.Element.path"), everymap("map[int]*embertree.Element")
returns err nil | fresh

spec embertree.(*RootElement).updateElement (root, element) (err)
behavior main
prop C08 C15
emits *
modifies every("embertree.Element.contents"), every("embertree.Element.parent"), every("embertree.Element.path"), everymap("map[int]*embertree.Element")
returns err nil | fresh

spec embertree.(*RootElement).updateQualifiedElement (root, element) (parent, err)
behavior main
prop C08 C15 C16
emits *
modifies every("embertree.Element.contents"), every("embertree.Element.parent"), every("embertree.Element.path"), everymap("map[int]*embertree.Element")
returns err nil | fresh

spec embertree.(*RootElement).Decode (root, reader) (err)
behavior main
prop C08 C09
emits *
uses safe
cutloops
modifies rest(reader), every("embertree.Element.contents"), every("embertree.Element.parent"), every("embertree.Element.path"), everymap("map[int]*embertree.Element")
ensures SHR(reader)

// ---------------------------------------------------------------- content values on the wire (C11)
// sizes the encoding can carry
define CPFITS(cp) = imp(cp.valueType == 1, len(cp.stringVal) < 4294967296) && imp(cp.valueType == 4, len(cp.bufferVal) < 4294967296) && \
  imp(cp.valueType == 6, NONNEG(content(cp.oid)) && len(OIDF(content(cp.oid))) < 4294967296)

spec embertree.(*ContentParameter).Encode (cp, ctxt, writer) (err)
behavior main
prop C11
requires CPOK(cp) && ctxt < 31
requires CPFITS(cp)
modifies buf(writer)
ensures err == nil
ensures appends(writer)
ensures imp(!cp.isSet, buf(writer) == old(buf(writer)))
ensures imp(cp.isSet && cp.valueType == 1, W(writer, cat(unit(160 + ctxt, 128, 12), STRB(cp.stringVal), unit(0, 0))))
ensures imp(cp.isSet && cp.valueType == 2, W(writer, cat(unit(160 + ctxt, 128, 1, 1), unit(ite(cp.boolVal, 255, 0)), unit(0, 0))))
ensures imp(cp.isSet && cp.valueType == 3, W(writer, cat(unit(160 + ctxt, 128, 2), INTB(cp.intVal), unit(0, 0))))
ensures imp(cp.isSet && cp.valueType == 4, W(writer, cat(unit(160 + ctxt, 128, 3), STRB(content(cp.bufferVal)), unit(0, 0))))
ensures imp(cp.isSet && cp.valueType == 5, W(writer, cat(unit(160 + ctxt, 128, 9), REALB(cp.realVal), unit(0, 0))))
ensures imp(cp.isSet && cp.valueType == 6, W(writer, cat(unit(160 + ctxt, 128, 13), STRB(OIDF(content(cp.oid))), unit(0, 0))))

// the tag of a context given by its number or by its tag
define CTAG(c) = ite(c < 31, 160 + c, c)

spec embertree.DecodeValue (reader, ctxt) (cp, err)
behavior wirestring
prop C11
explicit
ghost s seq, t seq
match rest(reader) == cat(unit(CTAG(ctxt), 128), unit(12), LEN(len(s)), s, unit(0, 0), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
requires len(s) < 4294967280
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.valueType == 1 && cp.stringVal == s
ensures rest(reader) == t
behavior wirestringdefinite
prop C11
explicit
ghost s seq, t seq
match rest(reader) == cat(unit(CTAG(ctxt)), LEN(len(cat(unit(12), LEN(len(s)), s))), unit(12), LEN(len(s)), s, t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
requires len(s) < 4294967280
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.valueType == 1 && cp.stringVal == s
ensures rest(reader) == t
behavior wirebool
prop C11
explicit
ghost x bool, t seq
match rest(reader) == cat(unit(CTAG(ctxt), 128), unit(1, 1, ite(x, 255, 0)), unit(0, 0), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.valueType == 2 && eqv(cp.boolVal, x)
ensures rest(reader) == t
behavior wirebooldefinite
prop C11
explicit
ghost x bool, t seq
match rest(reader) == cat(unit(CTAG(ctxt)), LEN(len(cat(unit(1, 1, ite(x, 255, 0))))), unit(1, 1, ite(x, 255, 0)), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.valueType == 2 && eqv(cp.boolVal, x)
ensures rest(reader) == t
behavior wireint
prop C11
explicit
ghost i int64, t seq
match rest(reader) == cat(unit(CTAG(ctxt), 128), unit(2), INTB(i), unit(0, 0), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.valueType == 3 && eqv(cp.intVal, i)
ensures rest(reader) == t
behavior wireintdefinite
prop C11
explicit
ghost i int64, t seq
match rest(reader) == cat(unit(CTAG(ctxt)), LEN(len(cat(unit(2), INTB(i)))), unit(2), INTB(i), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.valueType == 3 && eqv(cp.intVal, i)
ensures rest(reader) == t
behavior wirebuffer
prop C11
explicit
ghost s seq, t seq
match rest(reader) == cat(unit(CTAG(ctxt), 128), unit(3), LEN(len(s)), s, unit(0, 0), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
requires len(s) < 4294967280
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.bufferVal == nil || isfresh(ref(cp.bufferVal))
ensures cp.valueType == 4 && content(cp.bufferVal) == s
ensures rest(reader) == t
behavior wirebufferdefinite
prop C11
explicit
ghost s seq, t seq
match rest(reader) == cat(unit(CTAG(ctxt)), LEN(len(cat(unit(3), LEN(len(s)), s))), unit(3), LEN(len(s)), s, t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
requires len(s) < 4294967280
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.bufferVal == nil || isfresh(ref(cp.bufferVal))
ensures cp.valueType == 4 && content(cp.bufferVal) == s
ensures rest(reader) == t
behavior wirereal
prop C11
explicit
ghost x float64, t seq
match rest(reader) == cat(unit(CTAG(ctxt), 128), unit(9), REALB(x), unit(0, 0), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.valueType == 5 && ((fnan(x) && fnan(cp.realVal)) || feq(x, cp.realVal))
ensures rest(reader) == t
behavior wirerealdefinite
prop C11
explicit
ghost x float64, t seq
match rest(reader) == cat(unit(CTAG(ctxt)), LEN(len(cat(unit(9), REALB(x)))), unit(9), REALB(x), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.valueType == 5 && ((fnan(x) && fnan(cp.realVal)) || feq(x, cp.realVal))
ensures rest(reader) == t
behavior wireoid
prop C11
explicit
ghost xs seq32, t seq
match rest(reader) == cat(unit(CTAG(ctxt), 128), unit(13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.oid == nil || isfresh(ref(cp.oid))
ensures cp.valueType == 6 && content(cp.oid) == xs
ensures rest(reader) == t
behavior wireoiddefinite
prop C11
explicit
ghost xs seq32, t seq
match rest(reader) == cat(unit(CTAG(ctxt)), LEN(len(cat(unit(13), LEN(len(OIDF(xs))), OIDF(xs)))), unit(13), LEN(len(OIDF(xs))), OIDF(xs), t)
requires ctxt < 31 || (160 <= ctxt && ctxt < 191)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
modifies rest(reader)
returns cp fresh
ensures err == nil && cp.isSet
ensures cp.oid == nil || isfresh(ref(cp.oid))
ensures cp.valueType == 6 && content(cp.oid) == xs
ensures rest(reader) == t
