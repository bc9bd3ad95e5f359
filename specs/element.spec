// ---------------------------------------------------------------- elements on the wire (C12)
// the contents of an element, of whatever kind, append what they encode (proved for the kinds of this
// repository: contents.spec; assumed of a user's own)
spec embertree.EmberContents.Encode (contents, writer) (err)
behavior main
prop C12
trusted
modifies buf(writer)
ensures imp(err == nil, appends(writer))

define SIGSOK(l) = forall(k, 0, len(l), (istype(l[k], "*embertree.Target") && as(l[k], "*embertree.Target") != nil) || (istype(l[k], "*embertree.Source") && as(l[k], "*embertree.Source") != nil))

spec embertree.(*Element).encode (element, writer, asChild) (err)
behavior main
prop C12
partial
requires I32(element.Number)
requires NONNEG(content(element.path)) && len(element.path) < 268435456
requires SIGSOK(element.targets)
requires SIGSOK(element.sources)
requires forall(k, 0, len(element.connections), element.connections[k] != nil && SRCOK(element.connections[k]))
modifies buf(writer)
ensures imp(err == nil, W(writer, cat(unit(element.tag, 128), \
  ite(element.isQualified, cat(unit(160, 128, 13), STRB(OIDF(content(element.path))), unit(0, 0)), cat(unit(160, 128, 2), INTB(element.Number), unit(0, 0))), \
  ite(element.contents != nil, cat(unit(161, 128), cfor("EmberContents.Encode"), unit(0, 0)), empty()), \
  ite(!asChild && len(element.Children) > 0, cat(unit(162, 128), cfor("EncodeChildren"), unit(0, 0)), empty()), \
  ite(element.isMatrix, cat(cfor("EncodeTargets"), cfor("EncodeSources"), cfor("EncodeConnections")), empty()), \
  unit(0, 0))))
ensures imp(err == nil, ncalls("EmberContents.Encode") == ite(element.contents != nil, 1, 0))
ensures imp(err == nil, ncalls("EncodeChildren") == ite(!asChild && len(element.Children) > 0, 1, 0))
ensures imp(err == nil, ncalls("EncodeTargets") == ite(element.isMatrix, 1, 0) && ncalls("EncodeSources") == ite(element.isMatrix, 1, 0) && ncalls("EncodeConnections") == ite(element.isMatrix, 1, 0))
ensures imp(somecall("EmberContents.Encode"), eqv(lastcall("EmberContents.Encode", contents), element.contents) && lastcall("EmberContents.Encode", writer) == writer)
ensures imp(somecall("EncodeChildren"), lastcall("EncodeChildren", element) == element && lastcall("EncodeChildren", writer) == writer)
ensures imp(somecall("EncodeTargets"), lastcall("EncodeTargets", element) == element && lastcall("EncodeTargets", writer) == writer)
ensures imp(somecall("EncodeSources"), lastcall("EncodeSources", element) == element && lastcall("EncodeSources", writer) == writer)
ensures imp(somecall("EncodeConnections"), lastcall("EncodeConnections", element) == element && lastcall("EncodeConnections", writer) == writer)
ensures imp(err != nil, somecall("EmberContents.Encode") || somecall("EncodeChildren"))
ensures imp(err != nil, imp(somecall("EncodeChildren"), lastcall("EncodeChildren", err) != nil))
ensures imp(err != nil, imp(!somecall("EncodeChildren"), imp(somecall("EmberContents.Encode"), lastcall("EmberContents.Encode", err) != nil)))
// the induction hypothesis for the children: what main proves of an element, of a child that is an
// element main speaks about
behavior child
prop C12
explicit
trusted
modifies buf(writer)
ensures imp(err == nil, appends(writer))

spec embertree.(*Element).Encode (element, writer) (err)
behavior main
prop C12
partial
uses child
modifies buf(writer)
ensures imp(err == nil, appends(writer))
ensures ncalls("encode") == 1 && carg("encode", 0, element) == element && carg("encode", 0, writer) == writer && !carg("encode", 0, asChild)
ensures imp(err == nil, buf(writer) == cat(old(buf(writer)), capp("encode", 0)))
ensures iff(err == nil, cres("encode", 0, err) == nil)

spec embertree.(*Element).EncodeChildren (element, writer) (err)
behavior main
prop C12
partial
uses child
cutloops
modifies buf(writer)
ensures imp(err == nil, appends(writer))
ensures imp(err == nil, exhausted() && buf(writer) == cat(head(buf(writer)), unit(0, 0)))
ensures imp(err != nil, somecall("encode"))
ensures imp(err != nil, imp(somecall("encode"), lastcall("encode", err) != nil))
loop
entry buf(writer) == cat(old(buf(writer)), unit(100, 128))
each carg("encode", 0, element) == rangeval() && !carg("encode", 0, asChild) && carg("encode", 0, writer) == writer && cres("encode", 0, err) == nil
each buf(writer) == cat(old(buf(writer)), unit(160, 128), capp("encode", 0), unit(0, 0))

spec embertree.(*RootElement).Encode (root, writer) (err)
behavior main
prop C12
partial
cutloops
modifies buf(writer)
ensures imp(err == nil, appends(writer))
ensures imp(err == nil && len(root.RootElementCollection) == 0, W(writer, unit(96, 128, 0, 0)))
ensures imp(err == nil, imp(len(root.RootElementCollection) > 0, exhausted() && buf(writer) == cat(head(buf(writer)), unit(0, 0, 0, 0))))
ensures imp(err != nil, somecall("Encode"))
ensures imp(err != nil, imp(somecall("Encode"), lastcall("Encode", err) != nil))
loop
entry buf(writer) == cat(old(buf(writer)), unit(96, 128, 107, 128))
each carg("Encode", 0, element) == rangeval() && carg("Encode", 0, writer) == writer && cres("Encode", 0, err) == nil
each buf(writer) == cat(old(buf(writer)), unit(160, 128), capp("Encode", 0), unit(0, 0))
