package mqttp

// Demonstrations of the defects listed in /verif/known_findings.txt (all repaired by "fix:" commits).
// Every test fails on the commit the task started from and passes on the repaired tree:
//   go test -overlay overlay.json ./mqttp -run Finding
// This file is documentation; no check reads or runs it.

import (
	"bytes"
	"testing"

	"github.com/stretchr/testify/require"
)

func fEnc(t *testing.T, p IFace) []byte {
	t.Helper()
	sz, err := p.Size()
	require.NoError(t, err)
	dirty := bytes.Repeat([]byte{0xAA}, sz)
	n, err := p.Encode(dirty)
	require.NoError(t, err)
	require.Equal(t, sz, n)
	return dirty
}

func fRound(t *testing.T, p IFace) IFace {
	t.Helper()
	m, _, err := Decode(p.Version(), fEnc(t, p))
	require.NoError(t, err)
	return m
}

func TestFindingUnsubscribeList(t *testing.T) {
	// one byte too many is subtracted per topic, so the fourth of four short topics is never read
	_, _, err := Decode(ProtocolV311, []byte{0xA2, 12, 0, 1, 0, 3, 'a', '/', 'b', 0, 3, 'c', '/', 'd'})
	require.NoError(t, err)
	m, _, err := Decode(ProtocolV311, []byte{0xA2, 8, 0, 1, 0, 1, 'a', 0, 1, 'b'})
	require.NoError(t, err)
	require.Len(t, m.(*UnSubscribe).topics, 2)
	m, _, err = Decode(ProtocolV311, []byte{0xA2, 14, 0, 1, 0, 1, 'a', 0, 1, 'b', 0, 1, 'c', 0, 1, 'd'})
	require.NoError(t, err)
	require.Len(t, m.(*UnSubscribe).topics, 4)
}

func TestFindingUnsubscribeProperties(t *testing.T) {
	p := NewUnSubscribe(ProtocolV50)
	p.SetPacketID(1)
	tp, _ := NewTopic([]byte("a"))
	_ = p.AddTopic(tp)
	require.Equal(t, []byte{0xA2, 6, 0, 1, 0, 0, 1, 'a'}, fEnc(t, p))
}

func TestFindingAuthReason(t *testing.T) {
	p := NewAuth(ProtocolV50)
	p.authReason = CodeContinueAuthentication
	require.NoError(t, p.PropertySet(PropertyAuthMethod, "x"))
	m := fRound(t, p).(*Auth)
	require.Equal(t, CodeContinueAuthentication, m.ReasonCode())
}

func TestFindingEmptyPropertiesDirtyBuffer(t *testing.T) {
	require.Equal(t, []byte{0x20, 3, 0, 0, 0}, fEnc(t, NewConnAck(ProtocolV50)))
}

func TestFindingAuthSetReason(t *testing.T) {
	p := NewAuth(ProtocolV50)
	require.NoError(t, p.SetReasonCode(CodeReAuthenticate))
	require.Error(t, p.SetReasonCode(CodeBanned))
	require.Equal(t, CodeReAuthenticate, p.ReasonCode())
}

func TestFindingPropertySetWrongType(t *testing.T) {
	p := NewConnAck(ProtocolV50)
	require.Error(t, p.PropertySet(PropertyServerKeepAlive, "text"))
	require.Error(t, p.PropertySet(PropertyServerKeepAlive, []uint16{1, 2}))
	require.NotPanics(t, func() { fEnc(t, p) })
	s := NewSubscribe(ProtocolV50)
	require.Error(t, s.PropertySet(PropertySubscriptionIdentifier, uint32(268435456)))
}

func TestFindingPropertySetTwice(t *testing.T) {
	p := NewConnAck(ProtocolV50)
	require.NoError(t, p.PropertySet(PropertyServerKeepAlive, uint16(1)))
	require.NoError(t, p.PropertySet(PropertyServerKeepAlive, uint16(2)))
	require.Equal(t, []byte{0x20, 6, 0, 0, 3, 0x13, 0, 2}, fEnc(t, p))
}

func TestFindingPropertySetAfterSetVersion(t *testing.T) {
	p := NewConnAck(ProtocolV311)
	p.SetVersion(ProtocolV50)
	require.NotPanics(t, func() { _ = p.PropertySet(PropertyServerKeepAlive, uint16(1)) })
}

func TestFindingSubscriptionIdentifiers(t *testing.T) {
	in := []byte{0x30, 8, 0, 1, 'a', 4, 0x0B, 1, 0x0B, 2}
	m, _, err := Decode(ProtocolV50, in)
	require.NoError(t, err)
	require.Equal(t, in, fEnc(t, m))
}

func TestFindingSubAckCodes(t *testing.T) {
	_, _, err := Decode(ProtocolV50, []byte{0x90, 4, 0, 1, 0, 0x87})
	require.NoError(t, err)
	p := NewUnSubAck(ProtocolV50)
	require.NoError(t, p.AddReturnCode(CodeNoSubscriptionExisted))
	_, _, err = Decode(ProtocolV50, []byte{0xB0, 4, 0, 1, 0, 0x55})
	require.Error(t, err)
}

func TestFindingPacketID(t *testing.T) {
	for _, in := range [][]byte{{0x40, 0}, {0x40, 1, 1}, {0x40, 2, 0, 0}, {0x90, 3, 0, 0, 0}, {0x32, 5, 0, 1, 'a', 0, 0}, {0x32, 4, 0, 1, 'a', 1}} {
		_, _, err := Decode(ProtocolV311, in)
		require.Error(t, err, "%v", in)
	}
	p := NewPubAck(ProtocolV311)
	p.SetPacketID(0)
	_, err := Encode(p)
	require.Error(t, err)
}

func TestFindingConnAckCodes(t *testing.T) {
	_, _, err := Decode(ProtocolV50, []byte{0x20, 3, 0, 0x82, 0})
	require.NoError(t, err)
	_, _, err = Decode(ProtocolV50, []byte{0x20, 3, 0, 0x05, 0})
	require.Error(t, err)
	_, _, err = Decode(ProtocolV311, []byte{0x20, 2, 0, 0x87})
	require.Error(t, err)
	_, _, err = Decode(ProtocolV50, []byte{0x40, 3, 0, 1, 0x91})
	require.NoError(t, err)
}

func TestFindingIssuer(t *testing.T) {
	i, err := CodeReAuthenticate.PacketTypeDir(AUTH)
	require.NoError(t, err)
	require.Equal(t, CodeIssuerClient, i)
	require.NotEqual(t, CodeIssuerClient, CodeIssuerServer)
	_, err = CodeBanned.PacketTypeDir(AUTH)
	require.Error(t, err)
}

func TestFindingSetCredentials(t *testing.T) {
	p := NewConnect(ProtocolV311)
	require.NoError(t, p.SetCredentials([]byte("u"), []byte("p")))
	require.Error(t, p.SetCredentials(nil, []byte("p")))
	u, w := p.Credentials()
	require.Equal(t, "u", string(u))
	require.Equal(t, "p", string(w))
	require.True(t, p.usernameFlag() && p.passwordFlag())
	require.Error(t, p.SetCredentials([]byte("\x01"), nil))
	require.NoError(t, p.SetCredentials([]byte("v"), nil))
	_, w = p.Credentials()
	require.Empty(t, w)
}

func TestFindingCloneVersion(t *testing.T) {
	p := NewPublish(ProtocolV50)
	_ = p.SetTopic("a")
	c, err := p.Clone(ProtocolV311)
	require.NoError(t, err)
	require.Equal(t, ProtocolV311, c.Version())
}

func TestFindingEmptyTopic(t *testing.T) {
	_, err := Encode(NewPublish(ProtocolV311))
	require.Error(t, err)
	_, err = Encode(NewPublish(ProtocolV50))
	require.Error(t, err)
	p := NewPublish(ProtocolV50)
	require.NoError(t, p.PropertySet(PropertyTopicAlias, uint16(3)))
	_, err = Encode(p)
	require.NoError(t, err)
}

func TestFindingHugeSize(t *testing.T) {
	h := header{}
	h.cb.size = func() int { return 1<<32 + 5 }
	_, err := h.Size()
	require.Error(t, err)
}

func TestFindingSubscribeOptions(t *testing.T) {
	_, _, err := Decode(ProtocolV50, []byte{0x82, 7, 0, 1, 0, 0, 1, 'a', 0x30})
	require.Error(t, err)
	in := append([]byte{0x82, 16, 0, 1, 0, 0, 10}, []byte("$share/g/a")...)
	_, _, err = Decode(ProtocolV50, append(in, 0x04))
	require.Error(t, err)
	_, _, err = Decode(ProtocolV50, append(in, 0x01))
	require.NoError(t, err)
}

func TestFindingSubscribeNoTopics(t *testing.T) {
	p := NewSubscribe(ProtocolV311)
	p.SetPacketID(1)
	_, err := Encode(p)
	require.Error(t, err)
}

func TestFindingErrorTexts(t *testing.T) {
	for e := ErrInvalidUnSubscribe; e <= ErrProtocolInvalidName; e++ {
		require.NotEqual(t, Error(200).Error(), e.Error(), "%d", e)
	}
}

func TestFindingVarint(t *testing.T) {
	// non minimal remaining length
	_, _, err := Decode(ProtocolV311, []byte{0x20, 0x82, 0x00, 0, 0})
	require.Error(t, err)
	// five byte subscription identifier
	_, _, err = Decode(ProtocolV50, []byte{0x82, 14, 0, 1, 6, 0x0B, 0x81, 0x80, 0x80, 0x80, 0x01, 0, 1, 'a', 0})
	require.Error(t, err)
}

func TestFindingIsValidV5(t *testing.T) {
	require.False(t, ReasonCode(0x12).IsValidV5())
	require.True(t, CodeNoMatchingSubscribers.IsValidV5())
}
