#!/usr/bin/env python3
"""Writes specs/contents.spec: the contracts of the contents' Encode and Decode (C13).
One step behaviour per kind of contents and per type of value."""
import os
T = [  # type, number, ghosts, octets, requires, what the field holds
 ('string', 1, 's seq', 'unit(12), LEN(len(s)), s', ['len(s) < 4294967280'], '{V}.stringVal == s'),
 ('bool', 2, 'x bool', 'unit(1, 1, ite(x, 255, 0))', [], 'eqv({V}.boolVal, x)'),
 ('int', 3, 'i64 int64', 'unit(2), INTB(i64)', [], 'eqv({V}.intVal, i64)'),
 ('buffer', 4, 's seq', 'unit(3), LEN(len(s)), s', ['len(s) < 4294967280'], 'content({V}.bufferVal) == s'),
 ('real', 5, 'x float64', 'unit(9), REALB(x)', [], '((fnan(x) && fnan({V}.realVal)) || feq(x, {V}.realVal))'),
 ('oid', 6, 'xs seq32', 'unit(13), LEN(len(OIDF(xs))), OIDF(xs)', ['NONNEG(xs)', 'len(OIDF(xs)) < 4294967280'], 'content({V}.oid) == xs'),
]
o = []
w = o.append
w('''// ---------------------------------------------------------------- contents on the wire (C13)
// written by tools/gencontents.py
// what may follow a field: another one, or the end of the contents
define FIELDOK(s) = !(len(s) == 1 && at(s, 0) == 0) && imp(ENDS(s), len(s) >= 2)
// the field can take a value of the type
define TAKES(cp, n) = CPOK(cp) && (cp.valueType == 0 || cp.valueType == n)
define SAMECP(a, b) = a.isSet == b.isSet && a.valueType == b.valueType && a.stringVal == b.stringVal && eqv(a.boolVal, b.boolVal) && eqv(a.intVal, b.intVal) && eqv(a.bufferVal, b.bufferVal) && eqv(a.realVal, b.realVal) && eqv(a.oid, b.oid)
define KEPT(a) = a.isSet == old(a.isSet) && a.valueType == old(a.valueType) && a.stringVal == old(a.stringVal) && eqv(a.boolVal, old(a.boolVal)) && eqv(a.intVal, old(a.intVal)) && eqv(a.bufferVal, old(a.bufferVal)) && eqv(a.realVal, old(a.realVal)) && eqv(a.oid, old(a.oid))
define KEPTH(a) = a.isSet == head(a.isSet) && a.valueType == head(a.valueType) && a.stringVal == head(a.stringVal) && eqv(a.boolVal, head(a.boolVal)) && eqv(a.intVal, head(a.intVal)) && eqv(a.bufferVal, head(a.bufferVal)) && eqv(a.realVal, head(a.realVal)) && eqv(a.oid, head(a.oid))
define SENDS(cp) = CPOK(cp) && CPFITSQ(cp)
define TUPLE(ty, name) = cat(unit(117, 128, 160, 128, 2), INTB(ty), unit(0, 0, 161, 128, 12), STRB(name), unit(0, 0, 0, 0))
define OIDPIECE(k, o) = ite(o == nil, empty(), cat(unit(160 + k, 128, 13), STRB(OIDF(content(o))), unit(0, 0)))
define OIDOK(o) = NONNEG(content(o)) && len(o) < 268435456

spec embertree.(*ContentParameter).Encode (cp, ctxt, writer) (err)
behavior piece
prop C13
explicit
requires ctxt < 31
modifies buf(writer)
ensures imp(err == nil, appends(writer))
ensures imp(!cp.isSet, err == nil && buf(writer) == old(buf(writer)))

spec embertree.(*CommandContents).Encode (cc, writer) (err)
behavior main
prop C13 C17
requires I32(cc.fieldFlags)
modifies buf(writer)
ensures W(writer, cat(unit(2), INTB(cc.fieldFlags)))
ensures err == nil

spec embertree.(*CommandContents).Decode (cc, reader) (err)
behavior wire
prop C13 C17
explicit
ghost n int, t seq
match rest(reader) == cat(unit(2), INTB(n), t)
requires I32(n)
modifies rest(reader), cc.fieldFlags
ensures err == nil && cc.fieldFlags == n
ensures rest(reader) == t
''')

def tableenc(typ, recv, size, tab, after, req, extra=''):
    """contents in a table of fields: one iteration, and what surrounds them"""
    w(f'spec embertree.(*{typ}).Encode ({recv}, writer) (err)')
    w('behavior main\nprop C13\nuses piece')
    for q in req:
        w('requires ' + q)
    w(f'''modifies buf(writer)
ensures imp(err == nil, W(writer, cat(unit(49, 128), drop(head(buf(writer)), len(old(buf(writer))) + 2), {after}unit(0, 0))))
{extra}ensures imp(err == nil, idx == {size})
ensures imp(err != nil, somecall("Encode"))
ensures imp(err != nil, imp(somecall("Encode"), lastcall("Encode", err) != nil))
loop vars i int
witness idx = 0 ; idx + 1
inv idx == i
inv idx == i + 1
inv idx <= {size}
entry buf(writer) == cat(old(buf(writer)), unit(49, 128))
each imp({recv}.{tab}[old(idx)].isSet, carg("Encode", 0, ctxt) == old(idx) && SAMECP(carg("Encode", 0, cp), {recv}.{tab}[old(idx)]))
each imp({recv}.{tab}[old(idx)].isSet, buf(writer) == cat(old(buf(writer)), capp("Encode", 0)))
each imp(!{recv}.{tab}[old(idx)].isSet, buf(writer) == old(buf(writer)))
''')

def tablesteps(typ, recv, size, tab, tmpl, others):
    """one iteration of Decode for a value of each type in any field of the table"""
    w(f'spec embertree.(*{typ}).Decode ({recv}, reader) (err)')
    mods = f'rest(reader), fields({recv}), every("embertree.ContentParameter.isSet")'
    w(f'''behavior wireempty
prop C13
explicit
ghost t seq
match rest(reader) == cat(unit(49, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil
ensures rest(reader) == t''')
    for name, n, g, v, req, holds in T:
        V = f'{recv}.{tab}[k]'
        U = f'{recv}.{tab}[j]'
        w(f'''behavior {name}
prop C13
uses wire{name}
cutloops
ghost k int, j int, {g}, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= k && k < {size} && 0 <= j && j < {size} && j != k
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)''')
        for q in req:
            w('requires ' + q)
        w(f'''modifies rest(reader), fields({recv})
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures {V}.isSet && {V}.valueType == {n} && {holds.format(V=V)}
ensures KEPTH({U})''')
        for x in others:
            w(f'ensures {recv}.{x} == head({recv}.{x})')
        w(f'''loop
given rest(reader) == cat(unit(160 + k, 128), {v}, unit(0, 0), t)
given TAKES({V}, {n})
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each {V}.isSet && {V}.valueType == {n} && {holds.format(V=V)}
each KEPT({U})''')
        for x in others:
            w(f'each {recv}.{x} == old({recv}.{x})')

def template(recv, tmpl, mods, keep):
    w(f'''behavior template
prop C13
cutloops
ghost j int, xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)''')
    for q, _ in keep:
        if q.startswith('requires'):
            w(q)
    w(f'''modifies {mods}
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures content({recv}.templateReference) == xs''')
    for q, x in keep:
        if x:
            w(f'ensures KEPTH({x})' if q == 'cp' else f'ensures {x} == head({x})')
    w(f'''loop
given rest(reader) == cat(unit(160 + {tmpl}, 128, 13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each content({recv}.templateReference) == xs''')
    for q, x in keep:
        if x:
            w(f'each KEPT({x})' if q == 'cp' else f'each {x} == old({x})')

def fields(typ, recv, spec, fs, tmpl):
    """contents with named fields fs = [(name, number)] and a template reference"""
    w(f'spec embertree.(*{typ}).Encode ({recv}, writer) (err)')
    w('behavior main\nprop C13\nuses piece')
    if tmpl is not None:
        w(f'requires OIDOK({recv}.templateReference)')
    w('modifies buf(writer)')
    ps = [f'cfor("Encode", cp, {recv}.{f}, ctxt, {k})' for f, k in fs]
    if tmpl is not None:
        ps.append(f'OIDPIECE({tmpl}, {recv}.templateReference)')
    w(f'ensures imp(err == nil, W(writer, cat(unit(49, 128), {", ".join(ps)}, unit(0, 0))))')
    w('ensures imp(err != nil, somecall("Encode"))')
    w('ensures imp(err != nil, imp(somecall("Encode"), lastcall("Encode", err) != nil))')
    # every set field is encoded once, with its number
    w('')

def steps(typ, recv, fs, tmpl, extra):
    """one iteration of Decode, for a value of each type under the number of each field"""
    w(f'spec embertree.(*{typ}).Decode ({recv}, reader) (err)')
    mods = ', '.join(['rest(reader)', f'fields({recv})'])
    w(f'''behavior wireempty
prop C13
explicit
ghost t seq
match rest(reader) == cat(unit(49, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil
ensures rest(reader) == t''')
    keep = [x for x in extra]
    for name, n, g, v, req, holds in T:
        w(f'''behavior {name}
prop C13
uses wire{name}
cutloops
ghost k int, {g}, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires {' || '.join(f'k == {k}' for _, k in fs)}
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)''')
        for q in req:
            w('requires ' + q)
        w('modifies ' + mods)
        w('ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)')
        for f, k in fs:
            V = f'{recv}.{f}'
            w(f'ensures imp(k == {k}, {V}.isSet && {V}.valueType == {n} && {holds.format(V=V)})')
            w(f'ensures imp(k != {k}, KEPTH({V}))')
        for x in keep:
            w(f'ensures {recv}.{x} == head({recv}.{x})')
        w('loop')
        w(f'given rest(reader) == cat(unit(160 + k, 128), {v}, unit(0, 0), t)')
        for f, k in fs:
            w(f'given imp(k == {k}, TAKES({recv}.{f}, {n}))')
        w('entry rest(reader) == u')
        w('each rest(reader) == t && !ENDS(t)')
        for f, k in fs:
            V = f'{recv}.{f}'
            w(f'each imp(k == {k}, {V}.isSet && {V}.valueType == {n} && {holds.format(V=V)})')
            w(f'each imp(k != {k}, KEPT({V}))')
        for x in keep:
            w(f'each {recv}.{x} == old({recv}.{x})')
    if tmpl is not None:
        w(f'''behavior template
prop C13
cutloops
ghost xs seq32, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires NONNEG(xs)
requires len(OIDF(xs)) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies {mods}
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures content({recv}.templateReference) == xs''')
        for f, k in fs:
            w(f'ensures KEPTH({recv}.{f})')
        for x in keep:
            if x != 'templateReference':
                w(f'ensures {recv}.{x} == head({recv}.{x})')
        w('loop')
        w(f'given rest(reader) == cat(unit(160 + {tmpl}, 128, 13), LEN(len(OIDF(xs))), OIDF(xs), unit(0, 0), t)')
        w('entry rest(reader) == u')
        w('each rest(reader) == t && !ENDS(t)')
        w(f'each content({recv}.templateReference) == xs')
        for f, k in fs:
            w(f'each KEPT({recv}.{f})')
        for x in keep:
            if x != 'templateReference':
                w(f'each {recv}.{x} == old({recv}.{x})')
    w('')

node = [('identifier', 0), ('description', 1), ('isRoot', 2), ('isOnline', 3), ('schemaIdentifiers', 4)]
fields('NodeContents', 'nc', '', node, 5)
steps('NodeContents', 'nc', node, 5, ['templateReference'])
tableenc('ParameterContents', 'contents', 18, 'table', 'OIDPIECE(18, contents.templateReference), ', ['OIDOK(contents.templateReference)'])
tablesteps('ParameterContents', 'pc', 18, 'table', 18, ['templateReference'])
template('pc', 18, 'rest(reader), fields(pc)', [('requires 0 <= j && j < 18', None), ('cp', 'pc.table[j]')])
w('')

tableenc('MatrixContent', 'c', 10, 'table', 'capp("EncodeLabels", 0), lapp("Encode"), OIDPIECE(12, c.templateReference), ', ['OIDOK(c.templateReference)', 'forall(k, 0, len(c.labels), c.labels[k] != nil && LABOK(c.labels[k]))'],
  'ensures imp(err == nil, imp(c.schemaIdentifier.isSet, lastcall("Encode", ctxt) == 11 && SAMECP(lastcall("Encode", cp), c.schemaIdentifier)))\nensures imp(err == nil, carg("EncodeLabels", 0, c) == c)\n')
tablesteps('MatrixContent', 'c', 10, 'table', 12, ['templateReference', 'labels'])

template('c', 12, 'rest(reader), fields(c)', [('requires 0 <= j && j < 10', None), ('cp', 'c.table[j]'), ('cp', 'c.schemaIdentifier'), ('', 'c.labels')])
for name, n, g, v, req, holds in T:
    V = 'c.schemaIdentifier'
    w(f'''behavior schema{name}
prop C13
uses wire{name}
cutloops
ghost j int, {g}, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)''')
    for q in req:
        w('requires ' + q)
    w(f'''modifies rest(reader), fields(c)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)
ensures {V}.isSet && {V}.valueType == {n} && {holds.format(V=V)}
ensures KEPTH(c.table[j]) && c.labels == head(c.labels) && c.templateReference == head(c.templateReference)
loop
given rest(reader) == cat(unit(171, 128), {v}, unit(0, 0), t)
given TAKES({V}, {n})
entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each {V}.isSet && {V}.valueType == {n} && {holds.format(V=V)}
each KEPT(c.table[j]) && c.labels == old(c.labels) && c.templateReference == old(c.templateReference)''')
w('''behavior labels
prop C13
cutloops
ghost j int, u seq, z seq
match rest(reader) == cat(unit(49, 128), u)
requires 0 <= j && j < 10
requires len(u) >= 2 && !ENDS(u)
modifies rest(reader), fields(c)
ensures KEPTH(c.table[j]) && KEPTH(c.schemaIdentifier) && c.templateReference == head(c.templateReference)
ensures somecall("DecodeLabels")
ensures imp(somecall("DecodeLabels"), lastcall("DecodeLabels", c) == c && cpre("DecodeLabels", 0 - 1, rest(arg(reader))) == z)
ensures imp(somecall("DecodeLabels"), imp(lastcall("DecodeLabels", err) != nil, err != nil))
ensures imp(somecall("DecodeLabels"), imp(err == nil, rest(reader) == drop(cpost("DecodeLabels", 0 - 1, rest(arg(reader))), 2)))
ensures imp(somecall("DecodeLabels"), imp(lastcall("DecodeLabels", err) == nil, imp(FIELDOK(cpost("DecodeLabels", 0 - 1, rest(arg(reader)))), err == nil)))
loop
given rest(reader) == z && len(z) >= 2 && at(z, 0) == 170
entry rest(reader) == u
each KEPT(c.table[j]) && KEPT(c.schemaIdentifier) && c.templateReference == old(c.templateReference)
each ncalls("DecodeLabels") == 1 && carg("DecodeLabels", 0, c) == c && cpre("DecodeLabels", 0, rest(arg(reader))) == z && cres("DecodeLabels", 0, err) == nil
each rest(reader) == cpost("DecodeLabels", 0, rest(arg(reader)))
''')
w('''spec embertree.(*TupleDescription).Encode (tuple, writer) (err)
behavior main
prop C13
requires len(tuple.Name) < 4294967296
modifies buf(writer)
ensures err == nil
ensures W(writer, TUPLE(tuple.Type, tuple.Name))

spec embertree.(*TupleDescription).Decode (tuple, reader) (err)
behavior wire
prop C13
explicit
ghost n int, s seq, t seq
match rest(reader) == cat(TUPLE(n, s), t)
requires 0 <= n && n <= 255 && len(s) < 4294967280
modifies rest(reader), fields(tuple)
ensures err == nil && tuple.Type == n && tuple.Name == s
ensures rest(reader) == t

spec embertree.encodeTupleDescriptions (ctxt, tuples, writer) (err)
behavior main
prop C13
cutloops
requires forall(k, 0, len(tuples), tuples[k] != nil && len(tuples[k].Name) < 4294967296)
requires 160 <= ctxt && ctxt < 191
modifies buf(writer)
ensures err == nil
ensures appends(writer)
ensures k == len(tuples) && buf(writer) == cat(head(buf(writer)), unit(0, 0, 0, 0))
loop vars i int
witness k = 0 ; k + 1
inv k == i
inv k == i + 1
inv k <= len(tuples)
entry buf(writer) == cat(old(buf(writer)), unit(ctxt, 128, 48, 128))
each W(writer, cat(unit(160, 128), TUPLE(tuples[k].Type, tuples[k].Name), unit(0, 0)))

spec embertree.decodeTupleDescriptions (reader) (list, err)
behavior wireempty
prop C13
explicit
uses wire
ghost t seq
match rest(reader) == cat(unit(48, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil && len(list) == 0
ensures rest(reader) == t
behavior tuple
prop C13
uses wire
cutloops
ghost n int, s seq, t seq, u seq
match rest(reader) == cat(unit(48, 128), u)
requires 0 <= n && n <= 255 && len(s) < 4294967280
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)
modifies rest(reader)
ensures err == nil && ENDS(t) && ONEMORE(list, arguments)
ensures list[len(arguments)].Type == n && list[len(arguments)].Name == s
ensures rest(reader) == drop(t, 2)
loop vars arguments []*embertree.TupleDescription
given rest(reader) == cat(unit(160, 128), TUPLE(n, s), unit(0, 0), t)
entry rest(reader) == u && len(arguments) == 0
each rest(reader) == t && !ENDS(t) && ONEMORE(next(arguments), arguments)
each next(arguments)[len(arguments)].Type == n && next(arguments)[len(arguments)].Name == s
''')

fs = [('identifier', 0), ('description', 1)]
w('''spec embertree.(*FunctionContents).Encode (fc, writer) (err)
behavior main
prop C13
uses piece
requires forall(k, 0, len(fc.arguments), fc.arguments[k] != nil && len(fc.arguments[k].Name) < 4294967296)
requires forall(k, 0, len(fc.result), fc.result[k] != nil && len(fc.result[k].Name) < 4294967296)
modifies buf(writer)
ensures imp(err == nil, W(writer, cat(unit(49, 128), cfor("Encode", cp, fc.identifier, ctxt, 0), cfor("Encode", cp, fc.description, ctxt, 1), cfor("encodeTupleDescriptions", ctxt, 162), cfor("encodeTupleDescriptions", ctxt, 163), unit(0, 0))))
ensures imp(err == nil, ncalls("encodeTupleDescriptions") == ite(len(fc.arguments) > 0, 1, 0) + ite(len(fc.result) > 0, 1, 0))
ensures imp(err == nil, imp(len(fc.arguments) > 0, carg("encodeTupleDescriptions", 0, tuples) == fc.arguments && carg("encodeTupleDescriptions", 0, ctxt) == 162))
ensures imp(err == nil, imp(len(fc.result) > 0, lastcall("encodeTupleDescriptions", tuples) == fc.result && lastcall("encodeTupleDescriptions", ctxt) == 163))
ensures imp(err != nil, somecall("Encode"))
ensures imp(err != nil, imp(somecall("Encode"), lastcall("Encode", err) != nil))
''')
w('spec embertree.(*FunctionContents).Decode (fc, reader) (err)')
for name, n, g, v, req, holds in T:
    w(f'''behavior {name}
prop C13
uses wire{name}
cutloops
ghost k int, {g}, t seq, u seq
match rest(reader) == cat(unit(49, 128), u)
requires k == 0 || k == 1
requires len(u) >= 2 && !ENDS(u)
requires FIELDOK(t)''')
    for q in req:
        w('requires ' + q)
    w(f'''modifies rest(reader), fields(fc)
ensures err == nil && ENDS(t) && rest(reader) == drop(t, 2)''')
    for f, k in fs:
        V = f'fc.{f}'
        w(f'ensures imp(k == {k}, {V}.isSet && {V}.valueType == {n} && {holds.format(V=V)})')
        w(f'ensures imp(k != {k}, KEPTH({V}))')
    w(f'''ensures fc.arguments == head(fc.arguments) && fc.result == head(fc.result)
loop
given rest(reader) == cat(unit(160 + k, 128), {v}, unit(0, 0), t)''')
    for f, k in fs:
        w(f'given imp(k == {k}, TAKES(fc.{f}, {n}))')
    w('''entry rest(reader) == u
each rest(reader) == t && !ENDS(t)
each fc.arguments == old(fc.arguments) && fc.result == old(fc.result)''')
    for f, k in fs:
        V = f'fc.{f}'
        w(f'each imp(k == {k}, {V}.isSet && {V}.valueType == {n} && {holds.format(V=V)})')
        w(f'each imp(k != {k}, KEPT({V}))')
for name, k, f, g in (('arguments', 2, 'arguments', 'result'), ('result', 3, 'result', 'arguments')):
    w(f'''behavior {name}
prop C13
cutloops
ghost u seq, z seq
match rest(reader) == cat(unit(49, 128), u)
requires len(u) >= 2 && !ENDS(u)
modifies rest(reader), fields(fc)
ensures KEPTH(fc.identifier) && KEPTH(fc.description) && fc.{g} == head(fc.{g})
ensures somecall("decodeTupleDescriptions")
ensures imp(somecall("decodeTupleDescriptions"), cpre("decodeTupleDescriptions", 0 - 1, rest(arg(reader))) == z)
ensures imp(somecall("decodeTupleDescriptions"), imp(lastcall("decodeTupleDescriptions", err) != nil, err != nil))
ensures imp(somecall("decodeTupleDescriptions"), imp(err == nil, fc.{f} == lastcall("decodeTupleDescriptions", list)))
ensures imp(somecall("decodeTupleDescriptions"), imp(err == nil, rest(reader) == drop(cpost("decodeTupleDescriptions", 0 - 1, rest(arg(reader))), 4)))
loop
given rest(reader) == cat(unit({160 + k}, 128), z)
entry rest(reader) == u
each KEPT(fc.identifier) && KEPT(fc.description) && fc.{g} == old(fc.{g})
each ncalls("decodeTupleDescriptions") == 1 && cpre("decodeTupleDescriptions", 0, rest(arg(reader))) == z && cres("decodeTupleDescriptions", 0, err) == nil
each fc.{f} == cres("decodeTupleDescriptions", 0, list)
each rest(reader) == drop(cpost("decodeTupleDescriptions", 0, rest(arg(reader))), 2)''')
w('''behavior wireempty
prop C13
explicit
ghost t seq
match rest(reader) == cat(unit(49, 128, 0, 0), t)
modifies rest(reader)
ensures err == nil
ensures rest(reader) == t
''')

# ---- the accessors: each one sets and reads the field under its Glow number, and no other
KIND = {'String': (1, 'stringVal', '{V}.stringVal == x'), 'Bool': (2, 'boolVal', 'eqv({V}.boolVal, x)'), 'Int': (3, 'intVal', '{V}.intVal == x'), 'OID': (6, 'oid', 'eqv({V}.oid, x)')}
def accessors(typ, recv, fs, keepfs, others, size):
    # fs = [(setter, getter, kind, place, err of setter)]
    for st, gt, kind, place, seterr, pre in fs:
        n, fld, holds = KIND[kind]
        V = f'{recv}.{place}'
        if st:
            w(f'spec embertree.(*{typ}).{st} ({recv}, x) ({"err" if seterr else ""})')
            w('behavior main\nprop C13')
            keeps = list(keepfs)
            if size:
                w('ghost j int')
                w(f'requires 0 <= j && j < {size}' + (f' && j != {place[6:-1]}' if place.startswith('table') else ''))
                keeps.append('table[j]')
            for q in pre:
                w('requires ' + q)
            w(f'modifies fields({recv})')
            if seterr:
                w('ensures err == nil')
            w(f'ensures {V}.isSet && {V}.valueType == {n} && ' + holds.format(V=V))
            for k in keeps:
                if k != place:
                    w(f'ensures KEPT({recv}.{k})')
            for k in others:
                w(f'ensures {recv}.{k} == old({recv}.{k})')
            w('')
        if gt:
            w(f'spec embertree.(*{typ}).{gt} ({recv}) (x, err)')
            w('behavior main\nprop C13\nmodifies nothing')
            w(f'ensures iff(err == nil, {V}.isSet && {V}.valueType == {n})')
            rng = [q.replace('x', f'{V}.intVal') for q in pre]
            w(f'ensures imp({" && ".join(["err == nil"] + rng)}, {holds.format(V=V)})')
            w('')
def T_(*rows):
    return [r if len(r) == 6 else r + (False, []) for r in rows]
nf = [f for f, _ in node]
accessors('NodeContents', 'contents', T_(
  ('SetIdentifier', 'GetIdentifier', 'String', 'identifier'), ('SetDescription', 'GetDescription', 'String', 'description'),
  ('SetIsRoot', 'GetIsRoot', 'Bool', 'isRoot'), ('SetIsOnline', 'GetIsOnline', 'Bool', 'isOnline'),
  ('SetSchemaIdentifiers', 'GetSchemaIdentifiers', 'String', 'schemaIdentifiers')), nf, ['templateReference'], 0)
accessors('FunctionContents', 'contents', T_(
  ('SetIdentifier', 'GetIdentifier', 'String', 'identifier'), ('SetDescription', 'GetDescription', 'String', 'description')), ['identifier', 'description'], ['arguments', 'result'], 0)
def P(*rows):
    return T_(*[(s, g, k, f'table[{n}]') for s, g, k, n in rows])
accessors('ParameterContents', 'contents', P(
  ('SetIdentifier', 'GetIdentifier', 'String', 0), ('SetDescription', 'GetDescription', 'String', 1),
  ('SetAccess', 'GetAccess', 'String', 5), ('SetFormat', 'GetFormat', 'String', 6), ('SetEnumeration', 'GetEnumeration', 'String', 7),
  ('SetFactor', 'GetFactor', 'Int', 8), ('SetOnline', 'GetOnline', 'Bool', 9), ('SetFormula', 'GetFormula', 'String', 10),
  ('SetStep', 'GetStep', 'Int', 11), ('SetType', 'GetType', 'String', 13), ('SetStreanIdentifier', 'GetStreamIdentifier', 'Int', 14)), [], ['templateReference'], 18)
for g, n in (('Value', 2), ('Minimum', 3), ('Maximum', 4), ('Default', 12)):
    w(f'spec embertree.(*ParameterContents).Get{g}Object (contents) (cp)\nbehavior main\nprop C13\nmodifies nothing\nensures cp == contents.table[{n}]\n')
accessors('MatrixContent', 'c', [
  ('SetIdentifier', 'GetIdentifier', 'String', 'table[0]', False, []), ('SetDescription', 'GetDescription', 'String', 'table[1]', False, []),
  ('SetType', 'GetType', 'Int', 'table[2]', True, ['0 <= x && x <= 2']), ('SetMode', 'GetMode', 'Int', 'table[3]', True, ['0 <= x && x <= 1']),
  ('SetTargetCount', 'GetTargetCount', 'Int', 'table[4]', True, []), ('SetSourceCount', 'GetSourceCount', 'Int', 'table[5]', True, []),
  ('SetMaxTotalConnects', 'GetMaxTotalConnects', 'Int', 'table[6]', True, []), ('SetMaxConnectsPerTarget', 'GetMaxConnectsPerTarget', 'Int', 'table[7]', True, []),
  ('SetParameterLocation', 'GetParameterLocation', 'OID', 'table[8]', True, []), ('SetGainParameterNumber', 'GetGainParameterNumber', 'Int', 'table[9]', True, []),
  ('SetSchemaIdentifier', 'GetSchemaIdentifier', 'String', 'schemaIdentifier', True, [])], ['schemaIdentifier'], ['templateReference', 'labels'], 10)
open(os.path.join(os.path.dirname(__file__), '..', 'specs', 'contents.spec'), 'w').write('\n'.join(o) + '\n')
