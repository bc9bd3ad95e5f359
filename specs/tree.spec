// ---------------------------------------------------------------- merging received elements (C15)
define QTAG(t) = ite(t == 97, 105, ite(t == 99, 106, ite(t == 109, 113, ite(t == 115, 116, t))))
define ALIKE(a, b) = a.Number == b.Number && QTAG(a.tag) == QTAG(b.tag)

spec embertree.qualifiedTag (tag) (q)
behavior main
prop C15 C17
modifies nothing
ensures q == QTAG(tag)

spec embertree.(*Element).Update (element, newElement) (err)
behavior reject
prop C15
explicit
requires !ALIKE(element, newElement)
modifies nothing
ensures err != nil
ensures events() == 0
behavior merge
prop C15 C24
emits *
explicit
partial
cutloops
ghost q int
requires ALIKE(element, newElement)
modifies every("embertree.Element.contents"), every("embertree.Element.parent"), every("embertree.Element.path"), everymap("map[int]*embertree.Element")
ensures imp(err == nil, exhausted())
ensures imp(err != nil, somecall("Update"))
ensures imp(err != nil, imp(somecall("Update"), lastcall("Update", err) != nil))
ensures lastcall("updateListeners", element) == element && eqv(lastcall("updateListeners", err), err)
ensures ncalls("updateListeners") == 1
ensures devents() == 0
loop
entry imp(old(newElement.contents) != nil, eqv(element.contents, old(newElement.contents)))
entry imp(old(newElement.contents) == nil, eqv(element.contents, old(element.contents)))
entry ncalls("updateListeners") == 0 && ncalls("Update") == 0 && ncalls("AddChild") == 0
each imp(old(element.Children[rangekey()]) == nil, ncalls("Update") == 0 && ncalls("AddChild") == 1)
each imp(old(element.Children[rangekey()]) == nil, imp(ncalls("AddChild") == 1, carg("AddChild", 0, element) == element && carg("AddChild", 0, child) == rangeval() && element.Children[rangeval().Number] == rangeval()))
each imp(old(element.Children[rangekey()]) != nil, ncalls("Update") == 1 && ncalls("AddChild") == 0)
each imp(old(element.Children[rangekey()]) != nil, imp(ncalls("Update") == 1, carg("Update", 0, element) == old(element.Children[rangekey()]) && carg("Update", 0, newElement) == rangeval() && cres("Update", 0, err) == nil))
each imp(old(element.Children[rangekey()]) == nil && rangeval().Number == rangekey() && q != rangekey(), element.Children[q] == old(element.Children[q]))
each ncalls("updateListeners") == 0
each devents() == 0

spec embertree.(*RootElement).updateElement (root, element) (err)
behavior merge
prop C15
emits *
explicit
partial
modifies every("embertree.Element.contents"), every("embertree.Element.parent"), every("embertree.Element.path"), everymap("map[int]*embertree.Element")
ensures imp(old(root.RootElementCollection[element.Number]) == nil, err == nil && ncalls("Update") == 0 && ncalls("AddElement") == 1)
ensures imp(old(root.RootElementCollection[element.Number]) == nil, imp(ncalls("AddElement") == 1, carg("AddElement", 0, root) == root && carg("AddElement", 0, element) == element))
ensures imp(old(root.RootElementCollection[element.Number]) != nil, ncalls("Update") == 1 && ncalls("AddElement") == 0)
ensures imp(old(root.RootElementCollection[element.Number]) != nil, imp(ncalls("Update") == 1, carg("Update", 0, element) == old(root.RootElementCollection[element.Number]) && carg("Update", 0, newElement) == element && iff(err == nil, cres("Update", 0, err) == nil)))

spec embertree.(*RootElement).updateQualifiedElement (root, element) (parent, err)
behavior merge
prop C15 C16
emits *
explicit
partial
modifies every("embertree.Element.contents"), every("embertree.Element.parent"), every("embertree.Element.path"), everymap("map[int]*embertree.Element")
ensures ncalls("GetElementByPath") == 1
ensures carg("GetElementByPath", 0, root) == root && eqv(carg("GetElementByPath", 0, path), old(element.path))
ensures imp(cres("GetElementByPath", 0, e) != nil, ncalls("AddChild") == 0 && ncalls("Update") == 1 && parent == nil)
ensures imp(cres("GetElementByPath", 0, e) != nil, imp(ncalls("Update") == 1, carg("Update", 0, element) == cres("GetElementByPath", 0, e) && carg("Update", 0, newElement) == element && iff(err == nil, cres("Update", 0, err) == nil)))
ensures imp(cres("GetElementByPath", 0, e) == nil && cres("GetElementByPath", 0, parent) != nil, err == nil && parent == cres("GetElementByPath", 0, parent) && ncalls("Update") == 0 && ncalls("AddChild") == 1)
ensures imp(cres("GetElementByPath", 0, e) == nil && cres("GetElementByPath", 0, parent) != nil, imp(ncalls("AddChild") == 1, carg("AddChild", 0, element) == parent && carg("AddChild", 0, child) == element))
ensures imp(cres("GetElementByPath", 0, e) == nil && cres("GetElementByPath", 0, parent) == nil, err != nil && parent == nil && ncalls("Update") == 0 && ncalls("AddChild") == 0)

// ---------------------------------------------------------------- paths (C16)
spec embertree.(*RootElement).GetElementByPath (root, path) (parent, e)
behavior walk
prop C16
explicit
cutloops
requires len(path) > 0
modifies nothing
ensures imp(pos < len(path), parent == nil && e == nil)
ensures imp(pos >= len(path), pos == len(path) && parent == par && e == element)
loop vars par *embertree.Element, element *embertree.Element, pos int
inv 1 <= pos && pos <= len(path)
entry pos == 1 && par == nil && element == root.RootElementCollection[at(path, 0)]
each next(pos) == pos + 1 && next(par) == element && element != nil && next(element) == element.Children[at(path, pos)]

spec embertree.(*Element).GetPath (element) (path)
behavior exact
prop C16
explicit
partial
requires I32(element.Number)
modifies nothing
ensures imp(element.isQualified, eqv(path, element.path))
ensures imp(!element.isQualified && element.parent == nil, content(path) == unit(element.Number))
ensures imp(element.isQualified || element.parent == nil, ncalls("GetPath") == 0)
ensures imp(!element.isQualified && element.parent != nil, ncalls("GetPath") == 1)
ensures imp(!element.isQualified && element.parent != nil, imp(ncalls("GetPath") == 1, carg("GetPath", 0, element) == element.parent && content(path) == cat(content(cres("GetPath", 0, path)), unit(element.Number))))
ensures imp(!element.isQualified, isfresh(ref(path)) && len(path) > 0)

// ---------------------------------------------------------------- directory requests (C17)
define COPYOF(d, e) = isfresh(d) && isfresh(d.Children) && d.tag == e.tag && iff(d.isQualified, e.isQualified) && d.contents == nil && !d.isMatrix

spec embertree.(*Element).dup (element) (d)
behavior main
prop C17
requires imp(element.isQualified, len(element.path) > 0)
modifies nothing
ensures COPYOF(d, element) && len(d.Children) == 0
ensures imp(element.isQualified, eqv(d.path, element.path) && d.Number == at(content(element.path), len(element.path) - 1))
ensures imp(!element.isQualified, d.Number == element.Number)


// ---------------------------------------------------------------- listeners (C24)

spec embertree.(*Element).AddListener (element, listener)
behavior main
prop C24
requires listener != nil
modifies mapat(element.listeners, listener)
ensures has(element.listeners, listener) && eqv(element.listeners[listener], listener)
ensures len(element.listeners) == old(len(element.listeners)) + ite(old(has(element.listeners, listener)), 0, 1)

spec embertree.(*Element).RemoveListener (element, listener)
behavior main
prop C24
modifies mapat(element.listeners, listener)
ensures !has(element.listeners, listener)
ensures len(element.listeners) == old(len(element.listeners)) - ite(old(has(element.listeners, listener)), 1, 0)

spec embertree.(*RootElement).AddListener (root, listener)
behavior main
prop C24
requires listener != nil
modifies mapat(root.listeners, listener)
ensures has(root.listeners, listener) && eqv(root.listeners[listener], listener)
ensures len(root.listeners) == old(len(root.listeners)) + ite(old(has(root.listeners, listener)), 0, 1)

spec embertree.(*RootElement).RemoveListener (root, listener)
behavior main
prop C24
modifies mapat(root.listeners, listener)
ensures !has(root.listeners, listener)
ensures len(root.listeners) == old(len(root.listeners)) - ite(old(has(root.listeners, listener)), 1, 0)

spec embertree.(*RootElement).HasListner (root, listener) (b)
behavior main
prop C24
modifies nothing
ensures iff(b, has(root.listeners, listener))

spec embertree.(*Element).updateListeners (element, err)
behavior notify
prop C24
explicit
emits *
nilable err
cutloops
modifies nothing
ensures exhausted() && ranged(element.listeners)
loop
each events() == 1 && event(0, "Receive")
each imp(events() == 1, eqv(eventarg(0, 0), rangeval()) && istype(eventarg(0, 1), "*embertree.Element") && eqv(eventarg(0, 2), err))
each imp(events() == 1, as(eventarg(0, 1), "*embertree.Element") == element && rangemap() == element.listeners)

spec embertree.(*Element).SetContents (element, contents) (err)
behavior notify
prop C24
explicit
emits *
requires istype(contents, "*embertree.NodeContents") || istype(contents, "*embertree.ParameterContents") || istype(contents, "*embertree.FunctionContents") || istype(contents, "*embertree.MatrixContent") || istype(contents, "*embertree.CommandContents")
modifies element.contents
ensures err == nil && eqv(element.contents, contents)
ensures ncalls("updateListeners") == 1
ensures imp(ncalls("updateListeners") == 1, carg("updateListeners", 0, element) == element)

define QUAL(e) = e.isQualified && len(e.path) > 1
// what Decode does with every element of the message (C15) and whom it tells at the end (C24)
spec embertree.(*RootElement).Decode (root, reader) (err)
behavior merge
prop C15 C24
emits *
explicit
partial
uses safe
cutloops
modifies rest(reader), every("embertree.Element.contents"), every("embertree.Element.parent"), every("embertree.Element.path"), everymap("map[int]*embertree.Element")
ensures imp(err == nil, exhausted() && ranged(root.listeners))
ensures imp(err == nil, ranged(newmap("map[string]*embertree.Element")))
ensures imp(err == nil && seencall("DecodeElement"), seencall("updateQualifiedElement") || seencall("updateElement"))
ensures imp(err == nil && seencall("updateQualifiedElement"), lastcall("updateQualifiedElement", root) == root && lastcall("updateQualifiedElement", element) == lastcall("DecodeElement", e) && !seencall("updateElement"))
ensures imp(err == nil && seencall("updateQualifiedElement"), cpre("updateQualifiedElement", 0-1, QUAL(arg(element))))
ensures imp(err == nil && seencall("updateElement"), lastcall("updateElement", root) == root && lastcall("updateElement", element) == lastcall("DecodeElement", e) && !seencall("updateQualifiedElement"))
ensures imp(err == nil && seencall("updateElement"), cpre("updateElement", 0-1, !QUAL(arg(element))))
ensures imp(err == nil && seencall("updateQualifiedElement"), imp(lastcall("updateQualifiedElement", err) == nil && lastcall("updateQualifiedElement", parent) != nil, \
  newmap("map[string]*embertree.Element")[lastcall("Path2String", s)] == lastcall("updateQualifiedElement", parent) && \
  eqv(lastcall("Path2String", path), lastcall("GetPath", path)) && lastcall("GetPath", element) == lastcall("updateQualifiedElement", parent)))
loop every
each imp(ncalls("updateQualifiedElement") == 1, carg("updateQualifiedElement", 0, root) == root && carg("updateQualifiedElement", 0, element) == cres("DecodeElement", 0, e) && cpre("updateQualifiedElement", 0, QUAL(arg(element))))
each imp(ncalls("updateElement") == 1, carg("updateElement", 0, root) == root && carg("updateElement", 0, element) == cres("DecodeElement", 0, e) && cpre("updateElement", 0, !QUAL(arg(element))))
each imp(ncalls("updateQualifiedElement") == 1, imp(cres("updateQualifiedElement", 0, err) == nil && cres("updateQualifiedElement", 0, parent) != nil, \
  newmap("map[string]*embertree.Element")[lastcall("Path2String", s)] == cres("updateQualifiedElement", 0, parent) && \
  eqv(lastcall("Path2String", path), lastcall("GetPath", path)) && lastcall("GetPath", element) == cres("updateQualifiedElement", 0, parent)))
each imp(overmap("map[embertree.Listener]embertree.Listener"), events() == 1 && event(0, "Receive"))
each imp(overmap("map[embertree.Listener]embertree.Listener"), imp(events() == 1, eqv(eventarg(0, 0), rangeval()) && eventarg(0, 2) == nil))
each imp(overmap("map[embertree.Listener]embertree.Listener"), imp(events() == 1, \
  (istype(eventarg(0, 1), "*embertree.RootElement") && as(eventarg(0, 1), "*embertree.RootElement") == root && rangemap() == root.listeners) || \
  (istype(eventarg(0, 1), "*embertree.Element") && rangemap() == as(eventarg(0, 1), "*embertree.Element").listeners)))
each imp(overmap("map[string]*embertree.Element"), ncalls("updateListeners") <= 1)
each imp(overmap("map[string]*embertree.Element"), imp(ncalls("updateListeners") == 0, exhausted() && ranged(rangeval().listeners)))
each imp(overmap("map[string]*embertree.Element"), imp(ncalls("updateListeners") == 1, carg("updateListeners", 0, element) == rangeval() && carg("updateListeners", 0, err) == nil))
each imp(!overmap("map[embertree.Listener]embertree.Listener") && !overmap("map[string]*embertree.Element"), devents() == 0 && ncalls("DecodeElement") == 1 && ncalls("updateElement") + ncalls("updateQualifiedElement") == 1)

// ---------------------------------------------------------------- directory requests (C17)
define COPYOF(d, e) = isfresh(d) && isfresh(d.Children) && d.tag == e.tag && iff(d.isQualified, e.isQualified) && d.contents == nil && !d.isMatrix
define GETDIR(c) = isfresh(c) && c.Number == 32 && c.tag == 98 && !c.isQualified && istype(c.contents, "*embertree.CommandContents") && as(c.contents, "*embertree.CommandContents").fieldFlags == 0 - 1 && len(c.Children) == 0

spec embertree.NewCommand (number) (c)
behavior main
prop C17
inline embertree.NewElement
modifies nothing
ensures isfresh(c) && isfresh(c.Children) && c.Number == number && c.tag == 98 && !c.isQualified && len(c.Children) == 0 && c.parent == nil
ensures istype(c.contents, "*embertree.CommandContents") && isfresh(as(c.contents, "*embertree.CommandContents"))
ensures as(c.contents, "*embertree.CommandContents").fieldFlags == ite(number == 32, 0 - 1, 0)

spec embertree.(*Element).dup (element) (d)
behavior main
prop C17
requires imp(element.isQualified, len(element.path) > 0)
modifies nothing
ensures COPYOF(d, element) && len(d.Children) == 0
ensures imp(element.isQualified, eqv(d.path, element.path) && d.Number == at(content(element.path), len(element.path) - 1))
ensures imp(!element.isQualified, d.Number == element.Number)

spec embertree.(*RootElement).GetDirectoryMsg (root, listener) (msg, err)
behavior main
prop C17 C24
nilable listener
modifies mapat(root.listeners, listener)
ensures err == nil && isfresh(msg) && isfresh(msg.RootElementCollection) && len(msg.RootElementCollection) == 1
ensures ncalls("NewCommand") == 1
ensures imp(ncalls("NewCommand") == 1, msg.RootElementCollection[32] == cres("NewCommand", 0, c) && GETDIR(cres("NewCommand", 0, c)))
ensures imp(listener != nil, has(root.listeners, listener) && eqv(root.listeners[listener], listener))
ensures imp(listener == nil, len(root.listeners) == old(len(root.listeners)))

spec embertree.(*Element).GetQualifiedDirectoryMsg (element, listener) (msg)
behavior main
prop C17 C24
nilable listener
uses exact
requires I32(element.Number) && imp(element.isQualified, len(element.path) > 0)
modifies mapat(element.listeners, listener)
ensures isfresh(msg) && isfresh(msg.RootElementCollection) && len(msg.RootElementCollection) == 1
ensures ncalls("NewCommand") == 1 && ncalls("NewQualifiedElement") == 1
ensures imp(ncalls("NewCommand") == 1, GETDIR(cres("NewCommand", 0, c)))
ensures imp(ncalls("NewQualifiedElement") == 1, msg.RootElementCollection[cres("NewQualifiedElement", 0, q).Number] == cres("NewQualifiedElement", 0, q))
ensures imp(ncalls("NewQualifiedElement") == 1, eqv(cres("NewQualifiedElement", 0, q).path, cres("GetPath", 0, path)) && carg("GetPath", 0, element) == element)
ensures imp(ncalls("NewQualifiedElement") == 1, cres("NewQualifiedElement", 0, q).tag == QTAG(element.tag) && cres("NewQualifiedElement", 0, q).isQualified && cres("NewQualifiedElement", 0, q).contents == nil)
ensures imp(ncalls("NewQualifiedElement") == 1, len(cres("NewQualifiedElement", 0, q).Children) == 1 && cres("NewQualifiedElement", 0, q).Children[32] == cres("NewCommand", 0, c))
ensures imp(listener != nil, has(element.listeners, listener) && eqv(element.listeners[listener], listener))
ensures imp(listener == nil, len(element.listeners) == old(len(element.listeners)))

// the branch of a directory request: copies of the element and of its ancestors up to the root of the tree or a
// qualified element, each holding the one before and nothing else, the request below the first
define BRANCH(d, below, n) = len(d.Children) == 1 && d.Children[n] == below && below.parent == d

spec embertree.(*Element).GetDirectoryMsg (element, listener) (msg, err)
behavior main
prop C17 C24
partial
cutloops
nilable listener
inline embertree.(*Element).getDupBranch
requires imp(element.isQualified, len(element.path) > 0)
modifies mapat(element.listeners, listener)
ensures err == nil && isfresh(msg) && isfresh(msg.RootElementCollection) && len(msg.RootElementCollection) == 1
ensures ncalls("NewCommand") == 1
ensures imp(ncalls("NewCommand") == 1, GETDIR(cres("NewCommand", 0, c)))
ensures msg.RootElementCollection[dup.Number] == dup && (e.isQualified || e.parent == nil)
ensures imp(listener != nil, has(element.listeners, listener) && eqv(element.listeners[listener], listener))
ensures imp(listener == nil, len(element.listeners) == old(len(element.listeners)))
loop vars e *embertree.Element, dup *embertree.Element
inv isfresh(dup) && isfresh(dup.Children)
inv !isfresh(e)
inv GETDIR(cres("NewCommand", 0, c))
inv imp(e.isQualified, len(e.path) > 0)
assume imp(e.parent != nil, imp(e.parent.isQualified, len(e.parent.path) > 0))
entry e == element && COPYOF(dup, element) && BRANCH(dup, cres("NewCommand", 0, c), 32)
entry imp(element.isQualified, eqv(dup.path, element.path)) && imp(!element.isQualified, dup.Number == element.Number)
each next(e) == old(e.parent) && next(e) == e.parent && next(e) != nil && COPYOF(next(dup), e.parent) && BRANCH(next(dup), dup, dup.Number)
each imp(e.parent.isQualified, eqv(next(dup).path, e.parent.path)) && imp(!e.parent.isQualified, next(dup).Number == e.parent.Number)
loop vars e *embertree.Element, p *embertree.Element
inv p == e.parent
