package socket

import (
	"bytes"
	"net"

	"github.com/dufourgilles/emberlib/errors"
)

// ghostSealed: a sequence followed by its complemented checksum, low octet first.
func ghostSealed(b *bytes.Buffer) bool {
	crc := ^CalculateCRC(bytes.NewReader(b.Bytes()))
	b.WriteByte(byte(crc))
	b.WriteByte(byte(crc >> 8))
	return ValidateFrame(bytes.NewReader(b.Bytes()))
}

// ghostFeed: frame j of an encoded message of n frames arrives at a decoder.
func ghostFeed(d *S101Decoder, l *S101FrameList, j int) {
	b, err := l.GetBytesAt(j)
	if err != nil {
		return
	}
	d.DecodeBuffer(len(b), b)
}

// ghostAnswer: what the decoder of a new client does with a keep-alive request.
func ghostAnswer(conn net.Conn, kal []byte) (errors.Error, int) {
	client := NewS101Client()
	client.conn = conn
	return client.decoder.keepAliveReqHandler(kal), client.outQ.size()
}
