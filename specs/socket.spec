// ---------------------------------------------------------------- checksum (C21)

spec socket.CalculateCRC (reader) (crc)
behavior main
prop C21
mode mixed
modifies rest(reader)
ensures crc == CRC(old(rest(reader)))
loop vars v uint16
inv v == CRC(take(old(rest(reader)), len(old(rest(reader))) - len(rest(reader))))
loop vars v uint16, b uint8, e error
inv imp(e == nil, len(rest(reader)) < len(old(rest(reader))))
inv imp(e == nil, b == at(old(rest(reader)), len(old(rest(reader))) - len(rest(reader)) - 1))
inv imp(e == nil, v == CRC(take(old(rest(reader)), len(old(rest(reader))) - len(rest(reader)) - 1)))
inv imp(e != nil, len(rest(reader)) == 0)
inv imp(e != nil, v == CRC(old(rest(reader))))
rank len(rest(reader)) + ite(e == nil, 1, 0)

spec socket.ValidateFrame (buf) (ok)
behavior main
prop C21
mode mixed
modifies rest(buf)
smallcrc
ensures iff(ok, CRC(old(rest(buf))) == 0xF0B8)
ensures imp(ok, len(old(rest(buf))) >= 2)

spec socket.CalculateCRCCE (reader) (crc)
behavior main
prop C21 C18
mode mixed
ghost s seq
match rest(reader) == ESC(s)
modifies rest(reader)
ensures crc == CRC(s)
loop vars v uint16
witness k = 0 ; k + 1
inv k <= len(s)
inv v == CRC(take(s, k))
def rest(reader) == ESC(drop(s, k))

behavior shape
prop C22
mode mixed
modifies rest(reader)

define SEAL(s) = cat(unit(0xFE), ESC(cat(s, unit(lo8(not16(CRC(s))), hi8(not16(CRC(s)))))), unit(0xFF))

spec socket.finalizeBuffer (b) (res)
behavior main
prop C21 C18
mode mixed
ghost s seq
match buf(b) == cat(unit(0xFE), ESC(s))
modifies buf(b)
returns res b
ensures buf(b) == SEAL(s)

behavior shape
prop C22
mode mixed
modifies buf(b)
returns res b

spec socket.makeBERFrame (flags, data) (res)
behavior main
prop C18
mode mixed
ghost s seq
match content(data) == ESC(s)
requires flags < 0xF8
modifies nothing
returns res fresh
ensures buf(res) == SEAL(cat(unit(0, 14, 0, 1, flags, 1, 2, 31, 2), s))

behavior shape
prop C22
mode mixed
modifies nothing
returns res fresh

spec socket.GetKeepaliveRequest () (res)
behavior main
prop C18 C22
mode mixed
modifies nothing
returns res fresh
ensures buf(res) == SEAL(unit(0, 14, 1, 1))

spec socket.GetKeepAliveResponse () (res)
behavior main
prop C18 C22
mode mixed
modifies nothing
returns res fresh
ensures buf(res) == SEAL(unit(0, 14, 2, 1))

// ---------------------------------------------------------------- decoder (C19)

define CRCOK(s) = CRC(s) == 0xF0B8
define BODY(s) = take(s, len(s) - 2)
define ISEMBER(b) = len(b) >= 3 && at(b, 0) == 0 && at(b, 1) == 14 && at(b, 2) == 0
define ISKREQ(b) = len(b) >= 3 && at(b, 0) == 0 && at(b, 1) == 14 && at(b, 2) == 1
define ISKRESP(b) = len(b) >= 3 && at(b, 0) == 0 && at(b, 1) == 14 && at(b, 2) == 2
define ISGLOW(b) = ISEMBER(b) && len(b) >= 9 && at(b, 5) == 1 && at(b, 6) == 2
define FIRST(b) = bit(at(b, 4), 7)
define LAST(b) = bit(at(b, 4), 6)
define NODATA(b) = bit(at(b, 4), 5)

define MSG(m, b) = cat(ite(FIRST(b), empty(), m), ite(NODATA(b), empty(), drop(b, 9)))

spec socket.(*S101Decoder).HandleFrame (d, p) (err)
behavior main
prop C19
mode mixed
ghost s seq
match content(p) == s
modifies fields(d), buf(d.emberbuf)
requires d.keepAliveReqHandler != nil && d.keepAliveResHandler != nil && d.emberPacketHandler != nil
requires d.logger != nil
ensures imp(!CRCOK(s), err != nil && events() == 0)
ensures imp(CRCOK(s), len(s) >= 2)
ensures imp(CRCOK(s) && ISKREQ(BODY(s)), events() == 1 && called(0, d.keepAliveReqHandler) && content(eventarg(0, 1)) == s)
ensures imp(CRCOK(s) && ISKRESP(BODY(s)), events() == 1 && called(0, d.keepAliveResHandler) && content(eventarg(0, 1)) == s)
ensures imp(CRCOK(s) && !ISKREQ(BODY(s)) && !ISKRESP(BODY(s)) && !ISGLOW(BODY(s)), err != nil && events() == 0)
ensures imp(!CRCOK(s) || !ISGLOW(BODY(s)), d.inMessage == old(d.inMessage) && buf(d.emberbuf) == old(buf(d.emberbuf)))
ensures imp(CRCOK(s) && ISGLOW(BODY(s)), iff(err == nil, FIRST(BODY(s)) || old(d.inMessage)))
ensures imp(CRCOK(s) && ISGLOW(BODY(s)) && err != nil, events() == 0)
ensures imp(CRCOK(s) && ISGLOW(BODY(s)) && err == nil && LAST(BODY(s)), events() == 1 && called(0, d.emberPacketHandler) && content(eventarg(0, 1)) == MSG(old(buf(d.emberbuf)), BODY(s)))
ensures imp(CRCOK(s) && ISGLOW(BODY(s)) && err == nil && LAST(BODY(s)), buf(d.emberbuf) == empty() && !d.inMessage)
ensures imp(CRCOK(s) && ISGLOW(BODY(s)) && err == nil && !LAST(BODY(s)), events() == 0 && buf(d.emberbuf) == MSG(old(buf(d.emberbuf)), BODY(s)) && d.inMessage)

define KEEPS(d) = d.inMessage == old(d.inMessage) && buf(d.emberbuf) == old(buf(d.emberbuf))
define DROPS(d) = !d.inMessage && buf(d.emberbuf) == empty()

// what the end of a frame with content s does: event 0 (and for keep-alives whose handler fails event 1)
define REJECT(d) = events() == 1 && called(0, d.errorHandler) && DROPS(d)
define DISPATCH(d, h, s) = events() >= 1 && called(0, h) && content(eventarg(0, 1)) == s && \
  imp(events() == 1, KEEPS(d)) && imp(events() != 1, events() == 2 && called(1, d.errorHandler) && DROPS(d))
define DELIVER(d, m) = events() == 1 && called(0, d.emberPacketHandler) && content(eventarg(0, 1)) == m && DROPS(d)
define GLOW(d, b) = imp(!FIRST(b) && !old(d.inMessage), REJECT(d)) && \
  imp((FIRST(b) || old(d.inMessage)) && LAST(b), DELIVER(d, MSG(old(buf(d.emberbuf)), b))) && \
  imp((FIRST(b) || old(d.inMessage)) && !LAST(b), events() == 0 && d.inMessage && buf(d.emberbuf) == MSG(old(buf(d.emberbuf)), b))
define FRAME(d, s) = imp(!CRCOK(s), REJECT(d)) && \
  imp(CRCOK(s), FRAMEB(d, s, BODY(s)))
define FRAMEB(d, s, b) = imp(ISKREQ(b), DISPATCH(d, d.keepAliveReqHandler, s)) && \
  imp(ISKRESP(b), DISPATCH(d, d.keepAliveResHandler, s)) && \
  imp(!ISKREQ(b) && !ISKRESP(b) && !ISGLOW(b), REJECT(d)) && \
  imp(ISGLOW(b), GLOW(d, b))

spec socket.(*S101Decoder).DecodeBuffer (d, n, p)
behavior main
prop C19
emits *
mode mixed
inline socket.(*S101Decoder).HandleFrame, socket.(*S101Decoder).HandleEmberFrame
modifies d.escaped, d.inMessage, buf(d.inbuf), buf(d.emberbuf)
requires d.keepAliveReqHandler != nil && d.keepAliveResHandler != nil && d.emberPacketHandler != nil && d.errorHandler != nil
requires d.logger != nil
requires 0 <= n && n <= len(p)
ensures k == n
loop vars i int
witness k = 0 ; k + 1
inv k == i
inv k == i + 1
inv k <= n
each imp(at(content(p), k) == 0xFE, !d.escaped && buf(d.inbuf) == empty() && events() == 0 && KEEPS(d))
each imp(at(content(p), k) != 0xFE && at(content(p), k) != 0xFF && old(d.escaped), !d.escaped && buf(d.inbuf) == cat(old(buf(d.inbuf)), unit(xor20(at(content(p), k)))) && events() == 0 && KEEPS(d))
each imp(at(content(p), k) == 0xFD && !old(d.escaped), d.escaped && buf(d.inbuf) == old(buf(d.inbuf)) && events() == 0 && KEEPS(d))
each imp(at(content(p), k) < 0xFD && !old(d.escaped), !d.escaped && buf(d.inbuf) == cat(old(buf(d.inbuf)), unit(at(content(p), k))) && events() == 0 && KEEPS(d))
each imp(at(content(p), k) == 0xFF, !d.escaped && buf(d.inbuf) == empty())
each imp(at(content(p), k) == 0xFF, FRAME(d, old(buf(d.inbuf))))

// a whole frame, fed to a decoder in any state
behavior frame
prop C20
emits 2
mode mixed
ghost t seq
match content(p) == cat(unit(0xFE), ESC(t), unit(0xFF))
inline socket.(*S101Decoder).HandleFrame, socket.(*S101Decoder).HandleEmberFrame
modifies d.escaped, d.inMessage, buf(d.inbuf), buf(d.emberbuf)
requires d.keepAliveReqHandler != nil && d.keepAliveResHandler != nil && d.emberPacketHandler != nil && d.errorHandler != nil
requires d.logger != nil
requires n == len(p)
ensures FRAME(d, t)
ensures !d.escaped && buf(d.inbuf) == empty()
loop vars i int
cutwhen 1 <= i && i < n - 1 && !d.escaped
witness m = 0 ; m + 1
inv 0 <= m && m < len(t)
def i == 1 + len(ESC(take(t, m)))
inv !d.escaped && events() == 0 && d.inMessage == old(d.inMessage)
def buf(d.inbuf) == take(t, m)
def buf(d.emberbuf) == old(buf(d.emberbuf))

// a sequence followed by its complemented checksum always validates
spec socket.ghostSealed (b) (ok)
behavior main
prop C21
mode mixed
smallcrc
modifies buf(b)
ensures ok

// ---------------------------------------------------------------- encoder (C18, C20)

spec socket.(*S101FrameList).addFrame (s, frame)
behavior main
prop C18 C20
mode mixed
requires 0 <= s.numFrames && s.numFrames <= len(s.frames) && 1 <= s.increment && s.numFrames + s.increment <= 1099511627776
modifies s.numFrames, s.frames, content(s.frames)
ensures s.numFrames == old(s.numFrames) + 1
ensures s.numFrames <= len(s.frames)
ensures ref(s.frames) == old(ref(s.frames)) || isfresh(ref(s.frames))
ensures take(content(s.frames), s.numFrames) == cat(take(old(content(s.frames)), old(s.numFrames)), refs(frame))
loop vars j int, nf []*bytes.Buffer
inv 0 <= j && j <= s.numFrames
def take(content(nf), j) == take(old(content(s.frames)), j)
rank s.numFrames - j

define slice(s, a, n) = take(drop(s, a), n)
define HDR(f) = unit(0, 14, 0, 1, f, 1, 2, 31, 2)
define FLAG(j, n) = ite(n == 1, 0xC0, ite(j == 0, 0x80, ite(j == n - 1, 0x40, 0)))
define ISFRAME(f, flag, d, a, b) = 0 <= a && a <= b && b <= len(d) && buf(f) == SEAL(cat(HDR(flag), slice(d, a, b - a)))

spec socket.EncodeMessage (data) (l)
behavior main
prop C18 C20
mode mixed
ghost j int
requires 0 <= j && len(data) < 1099511627776
modifies nothing
returns l fresh
ensures 1 <= l.numFrames && l.numFrames <= len(l.frames)
ensures imp(j < l.numFrames, 0 <= a && a <= b && b <= len(data))
ensures imp(j < l.numFrames, buf(l.frames[j]) == SEAL(cat(HDR(FLAG(j, l.numFrames)), slice(content(data), a, ite(j == l.numFrames - 1, len(data), b) - a))))
ensures imp(j == 0, a == 0)
loop vars i int, enc *bytes.Buffer, f *socket.S101FrameList
witness k = 0 ; k + 1
witness lo = 0 ; ite(f.numFrames == head(f.numFrames), lo, k + 1)
// a, b: where the pending octets started when there were j (j+1) frames
witness a = 0 ; ite(f.numFrames > j, a, ite(f.numFrames == head(f.numFrames), lo, k + 1))
witness b = 0 ; ite(f.numFrames > j + 1, b, ite(f.numFrames == head(f.numFrames), lo, k + 1))
inv k == i
inv k == i + 1
inv 0 <= lo && lo <= k && k <= len(data)
inv 0 <= f.numFrames && f.numFrames <= len(f.frames) && f.increment == 1 && f.numFrames <= k
inv isfresh(ref(f.frames))
inv imp(f.numFrames <= j, a == lo)
inv imp(f.numFrames <= j + 1, b == lo)
inv imp(j == 0, a == 0)
inv 0 <= a && a <= b && b <= lo
inv imp(j < f.numFrames, f.frames[j] != enc && isfresh(f.frames[j]))
def buf(enc) == ESC(slice(content(data), lo, k - lo))
def imp(j < f.numFrames, buf(f.frames[j]) == SEAL(cat(HDR(ite(j == 0, 0x80, 0)), slice(content(data), a, b - a))))

behavior shape
prop C22
mode mixed
requires len(data) < 1099511627776
modifies nothing
returns l fresh
ensures 1 <= l.numFrames && l.numFrames <= len(l.frames) && isfresh(ref(l.frames))
ensures forall(q, 0, l.numFrames, l.frames[q] != nil)
ensures forall(q, 0, l.numFrames, isfresh(l.frames[q]))

loop vars i int, enc *bytes.Buffer, f *socket.S101FrameList
witness k = 0 ; k + 1
inv k == i
inv k == i + 1
inv 0 <= k && k <= len(data)
inv 0 <= f.numFrames && f.numFrames <= len(f.frames) && f.increment == 1 && f.numFrames <= k
inv isfresh(ref(f.frames))
inv forall(q, 0, f.numFrames, f.frames[q] != nil)
inv forall(q, 0, f.numFrames, isfresh(f.frames[q]))


spec socket.(*S101FrameList).Size (s) (n)
behavior main
prop C18 C20
modifies nothing
ensures n == s.numFrames

spec socket.(*S101FrameList).GetBytesAt (s, i) (b, err)
behavior main
prop C18 C20
mode mixed
requires 0 <= s.numFrames && s.numFrames <= len(s.frames)
requires imp(0 <= i && i < s.numFrames, s.frames[i] != nil)
modifies buf(s.frames[i])
ensures iff(err == nil, 0 <= i && i < s.numFrames)
ensures imp(err == nil, isfresh(ref(b)))
ensures imp(err == nil, content(b) == old(buf(s.frames[i])))

// ---------------------------------------------------------------- round trip (C20)
// Frame j of n carries the octets a..b of the message s (EncodeMessage/main); the decoder holds what came before.

spec socket.ghostFeed (d, l, j)
behavior main
uses frame
prop C20
mode mixed
ghost s seq, a int, b int
requires 0 <= a && a <= b && b <= len(s)
requires 0 <= j && j < l.numFrames && l.numFrames <= len(l.frames) && l.frames[j] != nil
requires imp(j == 0, a == 0) && imp(j == l.numFrames - 1, b == len(s))
match buf(l.frames[j]) == SEAL(cat(HDR(FLAG(j, l.numFrames)), slice(s, a, b - a)))
requires d.keepAliveReqHandler != nil && d.keepAliveResHandler != nil && d.emberPacketHandler != nil && d.errorHandler != nil
requires d.logger != nil
requires imp(j > 0, d.inMessage && buf(d.emberbuf) == take(s, a))
modifies d.escaped, d.inMessage, buf(d.inbuf), buf(d.emberbuf), buf(l.frames[j])
ensures imp(j < l.numFrames - 1, events() == 0 && d.inMessage && buf(d.emberbuf) == take(s, b))
ensures imp(j == l.numFrames - 1, events() == 1 && called(0, d.emberPacketHandler) && content(eventarg(0, 1)) == s)
ensures imp(j == l.numFrames - 1, !d.inMessage && buf(d.emberbuf) == empty())

// ---------------------------------------------------------------- outgoing queue, keep-alives (C22)

// a queue holds trees only
define ALLROOTS(q) = listtags(q.queue) == reptags("*embertree.RootElement", listlen(q.queue))

spec socket.newPacketQueue () (q)
behavior main
prop C22
modifies nothing
returns q fresh
ensures q.queue != nil && listlen(q.queue) == 0 && isfresh(q.queue)
ensures ALLROOTS(q)

spec socket.(*packetQueue).size (p) (n)
behavior main
prop C22
requires p.queue != nil
modifies nothing
ensures n == listlen(p.queue)

spec socket.(*packetQueue).isEmpty (p) (b)
behavior main
prop C22
requires p.queue != nil
modifies nothing
ensures iff(b, listlen(p.queue) == 0)

spec socket.(*packetQueue).add (p, msg) (err)
behavior main
prop C22
nilable msg
requires p.queue != nil
match listtags(p.queue) == reptags("*embertree.RootElement", listlen(p.queue))
modifies list(p.queue)
ensures iff(err == nil, old(listlen(p.queue)) < 256)
ensures imp(err != nil, listvals(p.queue) == old(listvals(p.queue)))
ensures imp(err == nil, listvals(p.queue) == cat(old(listvals(p.queue)), refs(msg)))
ensures ALLROOTS(p)

spec socket.(*packetQueue).getNext (p) (msg, err)
behavior main
prop C22
requires p.queue != nil
match listtags(p.queue) == reptags("*embertree.RootElement", listlen(p.queue))
modifies list(p.queue)
ensures err == nil
ensures imp(old(listlen(p.queue)) == 0, msg == nil && listlen(p.queue) == 0)
ensures imp(old(listlen(p.queue)) > 0, listvals(p.queue) == drop(old(listvals(p.queue)), 1))
ensures imp(old(listlen(p.queue)) > 0, refs(msg) == take(old(listvals(p.queue)), 1))
ensures ALLROOTS(p)

spec socket.(*S101Client).keepAliveReqHandler (s, kal) (err)
behavior main
prop C22
mode mixed
requires s.logger != nil
modifies nothing
ensures imp(s.conn == nil, err != nil && events() == 0)
ensures imp(s.conn != nil, events() == 1 && event(0, "write") && eventarg(0, 0) == SEAL(unit(0, 14, 2, 1)))

spec socket.(*S101Client).sendBER (s, data) (err)
behavior main
prop C22
mode mixed
requires len(data) < 1099511627776
emits *
modifies s.stats.TxErrors, s.stats.TxPackets, s.stats.TxBytes, s.stats.RxPackets, s.stats.RxBytes
ensures imp(s.conn == nil, err != nil && events() == 0)
ensures s.conn == old(s.conn) && s.outQ == old(s.outQ) && s.decoder == old(s.decoder) && s.logger == old(s.logger)
ensures imp(err == nil, k == f.numFrames)
loop vars i int, f *socket.S101FrameList
witness k = 0 ; k + 1
inv k == i
inv k == i + 1
inv 0 <= k && k <= f.numFrames && f.numFrames <= len(f.frames)
inv isfresh(f) && isfresh(ref(f.frames))
each events() == 1 && event(0, "write")
each eventarg(0, 0) == old(buf(f.frames[k]))
rank f.numFrames - i

spec socket.(*S101Client).sendBERNode (s, node) (err)
behavior main
prop C22
nilable node
mode mixed
partial
emits *
modifies s.stats.TxErrors, s.stats.TxPackets, s.stats.TxBytes, s.stats.RxPackets, s.stats.RxBytes
ensures imp(node == nil, err != nil && ncalls("Encode") == 0 && ncalls("sendBER") == 0)
ensures imp(node != nil, ncalls("Encode") == 1 && carg("Encode", 0, root) == node && cpre("Encode", 0, buf(arg(writer)) == empty()))
ensures imp(node != nil, imp(cres("Encode", 0, err) != nil, err == cres("Encode", 0, err) && ncalls("sendBER") == 0))
ensures imp(node != nil, imp(cres("Encode", 0, err) == nil, ncalls("sendBER") == 1 && carg("sendBER", 0, s) == s && content(carg("sendBER", 0, data)) == cpost("Encode", 0, buf(arg(writer))) && err == cres("sendBER", 0, err)))
ensures s.conn == old(s.conn) && s.outQ == old(s.outQ) && s.decoder == old(s.decoder) && s.logger == old(s.logger)

define DECOK(d) = d.keepAliveReqHandler != nil && d.keepAliveResHandler != nil && d.emberPacketHandler != nil && d.errorHandler != nil && d.logger != nil

spec socket.(*S101Client).processBuffer (s, l, buffer)
behavior main
prop C22
mode mixed
emits *
requires 0 <= l && l <= len(buffer)
requires s.decoder != nil
requires s.decoder.keepAliveReqHandler != nil && s.decoder.keepAliveResHandler != nil && s.decoder.emberPacketHandler != nil && s.decoder.errorHandler != nil
requires s.decoder.logger != nil
modifies s.decoder.escaped, s.decoder.inMessage, buf(s.decoder.inbuf), buf(s.decoder.emberbuf)
ensures ncalls("DecodeBuffer") == 1 && carg("DecodeBuffer", 0, d) == s.decoder && carg("DecodeBuffer", 0, n) == l
ensures content(carg("DecodeBuffer", 0, p)) == content(buffer)

// sending: each round takes the message at the head of the queue and sends it, nothing else
spec socket.(*S101Client).iomanager (s)
behavior main
prop C22
mode mixed
partial
cutloops
emits *
modifies s.stats.TxErrors, s.stats.TxPackets, s.stats.TxBytes, s.stats.RxPackets, s.stats.RxBytes, list(s.outQ.queue), s.decoder.escaped, s.decoder.inMessage, buf(s.decoder.inbuf), buf(s.decoder.emberbuf)
requires s.logger != nil && s.outQ != nil && s.outQ.queue != nil && s.decoder != nil
requires s.decoder.keepAliveReqHandler != nil && s.decoder.keepAliveResHandler != nil && s.decoder.emberPacketHandler != nil && s.decoder.errorHandler != nil
requires s.decoder.logger != nil
match listtags(s.outQ.queue) == reptags("*embertree.RootElement", listlen(s.outQ.queue))
loop
inv s.decoder.keepAliveReqHandler != nil && s.decoder.keepAliveResHandler != nil && s.decoder.emberPacketHandler != nil && s.decoder.errorHandler != nil
inv s.decoder.logger != nil
def listtags(s.outQ.queue) == reptags("*embertree.RootElement", listlen(s.outQ.queue))
loop vars count int
each ncalls("getNext") == 1 && carg("getNext", 0, p) == s.outQ
each iff(cres("getNext", 0, msg) != nil, ncalls("sendBERNode") == 1)
each imp(cres("getNext", 0, msg) != nil, carg("sendBERNode", 0, s) == s && carg("sendBERNode", 0, node) == cres("getNext", 0, msg))

// a new client: its decoder answers keep-alive requests through the client's connection
spec socket.ghostAnswer (conn, kal) (err, n)
behavior main
prop C22
mode mixed
inline socket.NewS101Client
requires conn != nil
modifies nothing
ensures events() == 1 && event(0, "write") && eventarg(0, 0) == SEAL(unit(0, 14, 2, 1))
ensures n == 0

spec socket.NewS101Client () (c)
behavior main
prop C22
mode mixed
modifies nothing
returns c fresh
ensures c.conn == nil && c.logger != nil && c.outQ != nil && c.outQ.queue != nil && listlen(c.outQ.queue) == 0
ensures ALLROOTS(c.outQ)
ensures c.decoder != nil && c.decoder.keepAliveReqHandler != nil && c.decoder.keepAliveResHandler != nil && c.decoder.emberPacketHandler != nil && c.decoder.errorHandler != nil
ensures c.decoder.logger != nil
