package main

// Tables of the MQTT standards, the oracle of the checks.

// v5ErrorCodes: reason codes of 0x80 or greater defined by MQTT 5.0 section 2.4.
var v5ErrorCodes = map[int64]bool{}

func init() {
	for _, c := range []int64{0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8B, 0x8C, 0x8D, 0x8E, 0x8F,
		0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2} {
		v5ErrorCodes[c] = true
	}
}

func set(c ...int64) map[int64]bool {
	m := map[int64]bool{}
	for _, x := range c {
		m[x] = true
	}
	return m
}

// reasonCodesV5 by packet type (MQTT 5.0 tables 3-1, 3-4 ... 3-13).
var reasonCodesV5 = map[int64]map[int64]bool{
	tCONNACK:  set(0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F),
	tPUBACK:   set(0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99),
	tPUBREC:   set(0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99),
	tPUBREL:   set(0x00, 0x92),
	tPUBCOMP:  set(0x00, 0x92),
	tSUBACK:   set(0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2),
	tUNSUBACK: set(0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91),
	tDISCONNECT: set(0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99,
		0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2),
	tAUTH: set(0x00, 0x18, 0x19),
}

var reasonCodesV3 = map[int64]map[int64]bool{
	tCONNACK: set(0, 1, 2, 3, 4, 5),
	tSUBACK:  set(0, 1, 2, 0x80),
}

// defaultFlags of the fixed header (MQTT 3.1.1 table 2.2); PUBLISH uses them as DUP, QoS, RETAIN.
var defaultFlags = map[int64]int64{tPUBREL: 2, tSUBSCRIBE: 2, tUNSUBSCRIBE: 2}

const (
	kByte = iota
	kShort
	kInt
	kVarInt
	kString
	kPair
	kBinary
)

type propSpec struct {
	id    int64
	name  string
	kind  int
	types map[int64]bool // packet types allowed
	rep   map[int64]bool // packet types where it may repeat
}

var allV5 = set(tCONNECT, tCONNACK, tPUBLISH, tPUBACK, tPUBREC, tPUBREL, tPUBCOMP, tSUBSCRIBE, tSUBACK, tUNSUBSCRIBE, tUNSUBACK, tDISCONNECT, tAUTH)

// properties of MQTT 5.0 section 2.2.2.2. Will properties are carried as PUBLISH properties by
// this library, so Will Delay Interval belongs to PUBLISH when set and is refused in a decoded
// PUBLISH packet.
var propTable = []propSpec{
	{0x01, "Payload Format Indicator", kByte, set(tPUBLISH), nil},
	{0x02, "Message Expiry Interval", kInt, set(tPUBLISH), nil},
	{0x03, "Content Type", kString, set(tPUBLISH), nil},
	{0x08, "Response Topic", kString, set(tPUBLISH), nil},
	{0x09, "Correlation Data", kBinary, set(tPUBLISH), nil},
	{0x0B, "Subscription Identifier", kVarInt, set(tPUBLISH, tSUBSCRIBE), set(tPUBLISH)},
	{0x11, "Session Expiry Interval", kInt, set(tCONNECT, tCONNACK, tDISCONNECT), nil},
	{0x12, "Assigned Client Identifier", kString, set(tCONNACK), nil},
	{0x13, "Server Keep Alive", kShort, set(tCONNACK), nil},
	{0x15, "Authentication Method", kString, set(tCONNECT, tCONNACK, tAUTH), nil},
	{0x16, "Authentication Data", kBinary, set(tCONNECT, tCONNACK, tAUTH), nil},
	{0x17, "Request Problem Information", kByte, set(tCONNECT), nil},
	{0x18, "Will Delay Interval", kInt, set(tPUBLISH), nil},
	{0x19, "Request Response Information", kByte, set(tCONNECT), nil},
	{0x1A, "Response Information", kString, set(tCONNACK), nil},
	{0x1C, "Server Reference", kString, set(tCONNACK, tDISCONNECT), nil},
	{0x1F, "Reason String", kString, set(tCONNACK, tPUBACK, tPUBREC, tPUBREL, tPUBCOMP, tSUBACK, tUNSUBACK, tDISCONNECT, tAUTH), nil},
	{0x21, "Receive Maximum", kShort, set(tCONNECT, tCONNACK), nil},
	{0x22, "Topic Alias Maximum", kShort, set(tCONNECT, tCONNACK), nil},
	{0x23, "Topic Alias", kShort, set(tPUBLISH), nil},
	{0x24, "Maximum QoS", kByte, set(tCONNACK), nil},
	{0x25, "Retain Available", kByte, set(tCONNACK), nil},
	{0x26, "User Property", kPair, allV5, allV5},
	{0x27, "Maximum Packet Size", kInt, set(tCONNECT, tCONNACK), nil},
	{0x28, "Wildcard Subscription Available", kByte, set(tCONNACK), nil},
	{0x29, "Subscription Identifier Available", kByte, set(tCONNACK), nil},
	{0x2A, "Shared Subscription Available", kByte, set(tCONNACK), nil},
}
