package h

import (
	"github.com/renthraysk/xtorm/netx/connection"

	"verif/harness/v"
)

// ended gives the way a stream ends.
func (w *wire) ended() {
	w.end = errEnd
	if v.Choose("end", 2) == 1 {
		w.end = errBoom
	}
	w.max = 40
}

// C16_Any: any short sequence of bytes.
func C16_Any() {
	w := &wire{cuts: v.Bound("segments of any size", 0, 1), data: v.Bytes("stream", v.Bound("stream length", 9, 11))}
	w.ended()
	m := 1 + v.Choose("messages", 2)
	rs, err := dialled(w).Send(bg, work(m))
	v.Assert(len(rs) <= m, "no more responses than messages")
	v.Assert(err != nil || len(rs) == m, "a response for each message, or an error")
	v.Assert(err == nil || w.pos <= len(w.data), "consumed no more than there is")
}

// C16_Auth: any short sequence of bytes in reply to authentication.
func C16_Auth() {
	w := &wire{data: v.Bytes("stream", v.Bound("stream length", 8, 10))}
	w.ended()
	k := v.Choose("mechanism", 3)
	err := connection.New(w).Authenticate(bg, &creds{"user", "pass", "db"}, mechanism(k))
	v.Assert(len(w.wrote) <= 2, "at most two messages are sent")
	if err == nil {
		v.Assert(w.pos > 0, "success needs a reply")
	}
}

// C16_Second: any short sequence of bytes in reply to the second step of authentication.
func C16_Second() {
	w := &wire{}
	w.ended()
	w.data = message(w.data, sAUTHCONT, field(nil, 1, "01234567890123456789"))
	w.data = append(w.data, v.Bytes("stream", v.Bound("stream length", 8, 9))...)
	err := connection.New(w).Authenticate(bg, &creds{"user", "pass", "db"}, mechanism(v.Choose("mechanism", 2)))
	v.Assert(len(w.wrote) == 2, "two messages are sent")
	v.Assert(err != nil || len(w.data) > 0, "success needs a reply")
}

// C16_Long: a frame of any stated length, and any amount of data behind it.
func C16_Long() {
	w := &wire{cuts: v.Bound("segments of any size", 1, 2)}
	w.ended()
	n := v.U32("stated length")
	t := v.U8("server type")
	v.Assume(t != sERROR && t != sCOLMETA && t != sAUTHCONT)
	w.data = append(w.data, byte(n), byte(n>>8), byte(n>>16), byte(n>>24), t)
	w.data = append(w.data, v.Bytes("payload", v.Bound("payload length", 9000, 20000))...)
	// what follows the frame, if it is complete, is not another one
	v.Assume(uint64(n) >= uint64(len(w.data)-4-4))
	_, err := dialled(w).Send(bg, work(1))
	done := t == sOK || t == sAUTHOK || t == sEXECOK
	if n == 0 {
		v.Assert(err != nil, "zero length is an error")
	} else if uint64(n) > uint64(len(w.data)-4) {
		v.Assert(err != nil, "an incomplete frame is an error")
	} else {
		v.Assert(err == nil == done, "a complete reply ends the call, the end of the stream is an error")
	}
}

// C16_Frames: several frames of any length, any amount of which arrives.
func C16_Frames() {
	w := &wire{}
	w.ended()
	for i := 0; i < v.Bound("frames", 2, 3); i++ {
		p := v.Bytes("payload", v.Bound("payload length", 20000, 70000))
		v.Assume(len(p) > v.Bound("shortest payload", 4000, 0))
		w.data = message(w.data, []byte{sROW, sNOTICE, sDONE}[i], p)
	}
	w.data = w.data[:v.Int("cut", 5000, len(w.data))]
	w.max = 100
	_, err := dialled(w).Send(bg, work(1))
	v.Assert(err != nil, "a stream without a reply is an error")
}

// C16_Zero: a zero-length frame of any type is an error, wherever it is.
func C16_Zero() {
	w := &wire{cuts: 1}
	w.ended()
	if k := v.Choose("aside", 4); k > 0 {
		w.data = aside(w.data, k-1, 30)
	}
	w.data = append(w.data, 0, 0, 0, 0, v.U8("server type"))
	w.data = message(w.data, sOK, nil)
	if v.Choose("auth", 2) == 1 {
		err := connection.New(w).Authenticate(bg, &creds{"user", "pass", "db"}, mechanism(v.Choose("mechanism", 3)))
		v.Assert(err != nil, "authenticating over a zero-length frame is an error")
		return
	}
	_, err := dialled(w).Send(bg, work(1))
	v.Assert(err != nil, "a zero-length frame is an error")
}

// malformed is a payload no message has.
func malformed() []byte {
	x := v.U8("byte")
	switch v.Choose("malformed", 7) {
	case 0: // unfinished varint
		return []byte{2 << 3, x | 0x80}
	case 1: // longer than the payload
		v.Assume(x > 1 && x < 0x80)
		return []byte{3<<3 | 2, x, 'a'}
	case 2: // an impossible wire type
		return []byte{x&0x78 | 7, 1}
	case 3: // a group that ends without having begun
		return []byte{x&0x78 | 4, 1}
	case 4: // field number zero
		return []byte{0, x}
	case 5: // required fields missing
		return []byte{}
	default: // varint too long
		return []byte{2 << 3, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, x | 0x02}
	}
}

// C16_Malformed: an undecodable error, column or challenge is an error.
func C16_Malformed() {
	w := &wire{}
	w.ended()
	if v.Choose("auth", 2) == 1 {
		t := []byte{sAUTHCONT, sERROR}[v.Choose("type", 2)]
		w.data = message(w.data, t, malformed())
		w.data = message(w.data, sAUTHOK, nil)
		err := connection.New(w).Authenticate(bg, &creds{"user", "pass", "db"}, mechanism(v.Choose("mechanism", 3)))
		v.Assert(err != nil, "authenticating over a malformed message is an error")
		return
	}
	t := []byte{sCOLMETA, sERROR, sAUTHCONT}[v.Choose("type", 3)]
	w.data = message(w.data, t, malformed())
	w.data = message(w.data, sOK, nil)
	_, err := dialled(w).Send(bg, work(1))
	v.Assert(err != nil, "a malformed message is an error")
}
