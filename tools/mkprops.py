#!/usr/bin/env python3
# Generates /verif/properties.jsonl (the source of truth for titles/statements is this table).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
M="mqttp/"
allcodec=[M+f for f in ("packet.go","header.go","property.go","routines.go","connect.go","connack.go","publish.go","puback.go","subscribe.go","suback.go","unsubscribe.go","unsuback.go","pingreq.go","pingresp.go","disconnect.go","auth.go")]
p("C01","Decode never panics; it yields a packet or an error, never both or neither",
 "For every protocol version and every byte string, decoding returns to its caller without panicking. It returns either a packet together with a nil error, or no packet together with a non-nil error.",
 ["inputs","configurations"],"all byte strings x protocol versions handed to Decode",
 "tests feed a few dozen hand-written packets; malformed length fields, truncated fields and lists are an unbounded input space",
 allcodec,[("deferred recover around the whole decode","mqttp/packet.go Decode"),("result triple cleared on every failure","mqttp/packet.go Decode")],["Decode"])
p("C02","Decoding terminates after work proportional to the packet",
 "Decoding terminates on every input: each pass of every loop that reads the packet consumes at least one more byte of it. No loop can keep running on the same position.",
 ["inputs"],"all byte strings handed to Decode, all iterations of all loops reached from it",
 "no test can show the absence of a non-terminating input",
 allcodec,[("properties loop","mqttp/property.go decode"),("topic loops","mqttp/subscribe.go, unsubscribe.go decodeMessage"),("variable byte integer loop","mqttp/header.go uvarint")],["Decode"])
p("C03","A packet is accepted only when it fills the buffer exactly",
 "When decoding succeeds, the reported byte count equals the length of the given buffer, and the fixed header's declared remaining length equals the number of bytes that follow it. Truncated packets, packets with trailing bytes and packets whose body does not use up its declared length are rejected.",
 ["inputs"],"all byte strings x packet types x versions",
 "tests contain one truncated and one oversized buffer for a few packet types",
 [M+"header.go",M+"packet.go"],[("declared length compared with buffer","mqttp/header.go decode"),("consumed length compared with declared length","mqttp/header.go decode")],["Decode"])
p("C04","Decoding leaves the input buffer alone and copies application data out of it",
 "Decoding never modifies the caller's buffer. The topic and payload of a decoded PUBLISH (also one that is a Will), and every decoded property value, are independent copies: overwriting the buffer after decoding does not change them.",
 ["inputs","histories"],"all inputs; all later writes to the receive buffer",
 "tests never reuse the buffer after decoding",
 allcodec,[("payload copied","mqttp/publish.go, mqttp/connect.go decodeMessage"),("property values copied","mqttp/property.go decodeBinary, decodeString")],["Publish.Topic","Publish.Payload","PropertyGet"])
p("C05","Encode writes exactly the number of bytes Size reports",
 "For every packet that can be encoded, a successful Encode reports exactly the number of bytes that Size reported, whatever the packet type, protocol version, flags, list lengths and properties. A buffer of exactly Size bytes is always sufficient and encoding into it does not panic.",
 ["inputs","configurations"],"all packet states x versions",
 "tests encode a handful of packets into oversized buffers",
 allcodec,[("size computation","size() of every packet type"),("encoding","encodeMessage() of every packet type"),("property length","mqttp/property.go FullLen/encode/calcLen*")],["Size","Encode"])
p("C06","Encode refuses short buffers and oversized packets without writing",
 "When the buffer is shorter than the packet, Encode reports insufficient buffer size and writes no byte of it. A packet whose body would exceed 268435455 bytes is refused with an invalid-length error by Size and Encode instead of being emitted with a truncated length.",
 ["inputs"],"all packet states x buffer lengths",
 "one test covers a three-byte CONNACK buffer; sizes beyond 32 bits are never tried",
 [M+"header.go"],[("buffer check before the first write","mqttp/header.go Encode"),("remaining length limit","mqttp/header.go setRemainingLength, Size")],["Size","Encode"])
p("C07","Encoded bytes never depend on what the buffer held before",
 "A successful Encode writes every one of the bytes it reports, each exactly from the packet's contents, so that encoding into a reused dirty buffer gives the same bytes, up to the order of properties, as encoding into a zeroed one.",
 ["inputs","histories"],"all packet states x initial buffer contents",
 "tests always encode into freshly zeroed buffers, where a skipped write is invisible when the expected byte is 0",
 allcodec,[("contiguous writes","encodeMessage() of every packet type, property encode")],["Encode"])
p("C08","Size and Encode do not change the packet",
 "Computing the size of a packet or encoding it changes nothing that its accessors report, apart from refreshing the remaining length, or that a later encoding emits. Encoding the same packet twice therefore gives the same bytes up to the order of properties.",
 ["inputs","histories"],"all packet states x repeated calls",
 "tests encode each packet once",
 allcodec,[("encoders only read the packet","encodeMessage()/size() of every packet type")],["Size","Encode"])
p("C09","Encoding then decoding gives back the same packet",
 "Whenever a packet built from valid values is encoded and the bytes are decoded under the same protocol version, decoding accepts them and the decoded packet has the same type, flags, identifiers, codes, topics, strings and payload as the original.",
 ["inputs","configurations"],"all packet types x versions x field values",
 "round-trip tests exist for one sample packet of some types, none for AUTH or v5 acknowledgements, and none compares all fields",
 allcodec,[("writer layout","encodeMessage() of every packet type"),("reader layout","decodeMessage() of every packet type")],["Encode","Decode"])
p("C10","Every settable v5 property survives encoding and decoding",
 "Each property that may be set on a v5 packet, with any value of the type MQTT assigns to it, is emitted under its own identifier and decoded to the same value, and sizes stay consistent when the decoded packet is encoded again. Repeatable properties keep all their values in order.",
 ["inputs"],"all property identifiers x packet types allowing them x values",
 "property_test.go is empty; only one property is ever set in a test",
 [M+"property.go"],[("value codecs","mqttp/property.go encode*/decode*/calcLen*"),("type dispatch tables","mqttp/property.go propertyTypeMap, propertyDecodeType, propertyEncodeType, propertyCalcLen")],["PropertySet","PropertyGet","Encode","Decode"])
p("C11","Setting a property again replaces it and keeps lengths right",
 "After any sequence of setting and discarding properties, the packet's size and encoding contain each currently set property value exactly once: setting an identifier a second time replaces the first value, and discarding removes all of them.",
 ["histories"],"all sequences of PropertySet / PropertiesDiscard / Encode",
 "no test sets a property twice",
 [M+"property.go",M+"header.go"],[("length accounting","mqttp/property.go Set, reset, decode")],["PropertySet","PropertiesDiscard","Size"])
p("C12","Properties are accepted only where MQTT 5 allows them",
 "A property identifier is accepted, both when set by the application and when decoded from the wire, exactly on the packet types for which MQTT 5.0 defines it, with the value type the standard assigns. A second occurrence on the wire is rejected unless the standard lets that property repeat in that packet type.",
 ["inputs"],"all identifiers x packet types",
 "no test exercises the property tables",
 [M+"property.go"],[("allowed packet types and repeats","mqttp/property.go propertyAllowedMessageTypes"),("value types","mqttp/property.go propertyTypeMap")],["PropertySet","Decode","PropertyID.IsValidPacketType","PropertyID.DupAllowed"])
p("C13","A refused property setting reports an error and changes nothing",
 "Setting a property with an unknown identifier, on a packet type that does not allow it, on a pre-5.0 packet, or with a value whose type does not fit the identifier returns an error and leaves the packet's properties and size unchanged. A property setting that was accepted never makes encoding panic.",
 ["inputs","histories"],"all identifiers x value types x packet types x versions",
 "no test passes a wrong identifier or a wrongly typed value",
 [M+"property.go",M+"header.go"],[("validation before mutation","mqttp/property.go Set")],["PropertySet","Encode"])
p("C14","Reason codes are accepted exactly where the standard defines them",
 "A reason code byte in CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT or AUTH is accepted exactly when the standard in force (MQTT 3.1.1 or 5.0) defines it for that packet type; setters that validate codes apply the same rule. (UNSUBACK has no codes before 5.0.) A reason code is reported valid, in general or for a version, only if the standards, or that version, define it.",
 ["inputs","configurations"],"all 256 codes x packet types x versions",
 "tests try one invalid code for two packet types, and no v5 code",
 [M+"reasonCodes.go",M+"connack.go",M+"puback.go",M+"suback.go",M+"unsuback.go",M+"disconnect.go",M+"auth.go"],[("per-type code table","mqttp/reasonCodes.go packetTypeCodeMap"),("checks in decoders and setters","decodeMessage of the acknowledgement types")],["Decode","ReasonCode.IsValidForType","SetReturnCode","AddReturnCodes","Auth.SetReasonCode"])
p("C15","The packet type nibble selects the right packet, unknown types are refused",
 "Creating or decoding a packet of a given type yields a packet that reports exactly that type and the requested version and encodes as that type; type 0, and AUTH before protocol 5.0, are refused with an error.",
 ["inputs","configurations"],"all type values x versions",
 "tests do not look at the concrete type produced for every code",
 [M+"packet.go",M+"header.go",M+"packetType.go"],[("type switch","mqttp/packet.go newMessage"),("constructor wiring of encode/decode/size","New* constructors")],["New","Decode","IFace.Type"])
p("C16","Fixed-header flag bits are enforced when reading and produced when writing",
 "Decoding rejects every packet other than PUBLISH whose four flag bits differ from the value the standard reserves for its type, and every PUBLISH with QoS 3. Encoding always emits the packet's type in the high nibble and the reserved flag bits (for PUBLISH its DUP, QoS and RETAIN) in the low nibble.",
 ["inputs"],"all 256 first bytes x versions",
 "tests check the flag table but only a few first bytes",
 [M+"header.go",M+"packetType.go"],[("flags compared with defaults","mqttp/header.go decode"),("first byte","mqttp/header.go Encode")],["Decode","Encode"])
p("C17","CONNECT packets breaking a protocol rule are rejected, conforming ones are not",
 "A CONNECT is rejected when its protocol name and level do not match a supported version, its reserved flag is set, its will QoS is 3, will QoS or retain are set without the will flag, before 5.0 a password comes without a user name or an empty client identifier without clean session, its client identifier has characters other than 0-9 a-z A-Z space - _ , . | /, its user name has control characters or invalid UTF-8, or its will has an empty or invalid topic, a subscription identifier or a topic alias. Other combinations of version, flags and client identifier are not rejected for those, and an accepted CONNECT delivers client identifier, keep alive, clean flag, will and credentials as sent.",
 ["inputs","configurations"],"all 256 flag bytes x versions x client identifiers",
 "tests decode fewer than ten CONNECT packets",
 [M+"connect.go"],[("flag checks","mqttp/connect.go decodeMessage")],["Decode"])
p("C18","CONNECT setters keep flags and contents consistent",
 "For a given protocol version, after any setting or clearing of will, credentials and clean session, the emitted connect flags say exactly which fields follow, with the will's QoS and retain, and accessors report the last accepted values. Calls that would produce a packet the standard forbids fail and change nothing: no will, or a will without topic, with topic alias or subscription identifier; an invalid user name; before 5.0 a password without user name.",
 ["histories","inputs"],"all sequences of setter calls",
 "tests set every field once on a fresh packet",
 [M+"connect.go"],[("flag maintenance","mqttp/connect.go SetWill, ResetWill, SetCredentials, SetClean")],["Connect.SetWill","Connect.ResetWill","Connect.SetCredentials","Connect.SetClean","Connect.Credentials","Encode"])
p("C19","PUBLISH packets breaking a protocol rule are neither decoded nor emitted",
 "Decoding refuses a PUBLISH with DUP set at QoS 0, with a topic containing wildcards, control characters or invalid UTF-8, with an empty topic before 5.0 or without a non-zero topic alias, or with a will-only property. Encoding refuses an invalid topic, DUP at QoS 0, and an empty topic under the same conditions.",
 ["inputs","configurations"],"all flag values x topics x property sets x versions",
 "publish_test.go decodes two packets and encodes none",
 [M+"publish.go",M+"types.go",M+"packet.go"],[("checks","mqttp/publish.go decodeMessage, encodeMessage")],["Decode","Encode"])
p("C20","Packets that need a packet identifier always carry a complete non-zero one",
 "Decoding rejects a QoS 1/2 PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE or UNSUBACK whose two-byte identifier is missing, cut short or zero. Encoding such a packet with no or zero identifier fails, a QoS 0 PUBLISH never carries one, and asking a packet without identifier for it reports that it is not set.",
 ["inputs"],"all packet bodies x identifier values",
 "tests cover wrong buffer lengths but never a consistent packet with a short or zero identifier",
 [M+"header.go",M+"publish.go",M+"puback.go",M+"subscribe.go",M+"suback.go",M+"unsubscribe.go",M+"unsuback.go"],[("identifier read","mqttp/header.go decodePacketID"),("identifier presence checks","encodeMessage of the types above")],["Decode","Encode","IFace.ID"])
p("C21","SUBSCRIBE and UNSUBSCRIBE are accepted only with well-formed topic lists",
 "Decoding a SUBSCRIBE or UNSUBSCRIBE succeeds only if it contains at least one topic and every topic is a valid filter; each SUBSCRIBE entry must have a valid QoS, zero reserved bits for the protocol version, a retain handling other than 3, and no No Local bit on a shared subscription. All topics of an accepted packet are delivered, in order, with their own options, and a packet without topics is never emitted.",
 ["inputs","configurations"],"all topic lists x option bytes x versions",
 "tests use three long topics; list lengths, short topics and option bits are not explored",
 [M+"subscribe.go",M+"unsubscribe.go",M+"types.go"],[("topic loop and option checks","mqttp/subscribe.go, unsubscribe.go decodeMessage")],["Decode","ForEachTopic"])
p("C22","Topic names and filters follow the MQTT grammar exactly",
 "A published topic is valid exactly when it is well-formed UTF-8 without control characters and without + or #. A topic filter is valid exactly when, in addition, + and # only occupy whole levels and # only the last one; a $share filter needs a non-empty wildcard-free group and a valid non-empty filter after it, which is what the parsed filter and share name report.",
 ["inputs"],"all byte strings offered as topic or filter",
 "tests list about fifteen strings",
 [M+"types.go",M+"packet.go"],[("validation expressions","mqttp/types.go TopicFilterRegexp, TopicPublishRegexp, SharedTopicRegexp, BasicUTFRegexp"),("split of shared filters","mqttp/types.go NewTopic")],["NewTopic","NewSubscribeTopic","ValidTopic","IsValidUTF"])
p("C23","A cloned PUBLISH carries exactly the end-to-end parts",
 "Cloning a PUBLISH for a receiver's protocol version gives a packet of that version with the same topic, payload, QoS, RETAIN flag and expiry, DUP cleared and no packet identifier. For 5.0 to 5.0 it carries payload format, response topic, correlation data, user properties and content type, and no other property; the original is unchanged.",
 ["inputs","configurations"],"all PUBLISH states x target versions",
 "Clone has no test",
 [M+"publish.go"],[("property forwarding list","mqttp/publish.go Clone")],["Publish.Clone"])
p("C24","PUBLISH flag setters change only their own flag",
 "Setting QoS, DUP or RETAIN of a PUBLISH makes the matching accessor return the value just set and leaves the other two untouched, from every prior state. An invalid QoS is refused and changes nothing.",
 ["histories","inputs"],"all prior flag states x setter arguments",
 "no test combines the setters",
 [M+"publish.go"],[("bit masks","mqttp/publish.go Set, SetQoS, SetDup, SetRetain, QoS, Dup, Retain")],["Publish.SetQoS","Publish.SetDup","Publish.SetRetain","Publish.Set"])
p("C25","A failure in any part of a packet fails the whole operation",
 "If reading, validating or writing any component of a packet fails, the enclosing decode or encode call reports an error; no failure is swallowed, and an encoder that fails never reports success with fewer bytes.",
 ["inputs","fault_sequences"],"every fallible step on every path of every codec routine",
 "tests trigger only a few of the failing steps",
 allcodec,[("error propagation","every call site returning an error in decodeMessage/encodeMessage/property codecs")],["Decode","Encode"])
p("C26","A rejected v5 packet is never reported with a v3-only code",
 "When decoding a packet under protocol 5.0 fails with a reason code, that code is one MQTT 5.0 defines; the connection-refused codes of MQTT 3.x are never reported for a 5.0 packet. Under no version is a refused packet reported with the code of success.",
 ["inputs"],"all byte strings, packet types and versions (a CONNECT packet is judged by the version it declares)",
 "tests check the code for two v5 packets",
 allcodec,[("version dependent reject codes","decodeMessage of every type, mqttp/header.go decode")],["Decode"])
p("C27","Packets share no mutable state, so independent packets are race-free",
 "Creating, decoding, inspecting, modifying and encoding packets reads only immutable package data besides the packet and buffers involved: no operation writes package-level state, starts goroutines, or returns memory shared with another packet, except that a clone may refer to the same payload and property values. Operations on different packets may therefore run concurrently.",
 ["schedules"],"all interleavings of operations on distinct packets",
 "tests are single threaded",
 [M+"packet.go",M+"property.go",M+"reasonCodes.go",M+"types.go"],[("tables only written during initialisation","package variables of mqttp"),("fresh allocation per packet","New* constructors")],["New","Decode","Encode"])
p("C28","Every error value has its own description",
 "Each declared error of the packet library, the authentication interface and the persistence interface, each property error and each reason code has a description that is neither the generic fallback text nor that of a different error of the same kind.",
 ["inputs"],"all declared error constants",
 "no test enumerates the constants",
 [M+"errors.go",M+"property.go",M+"reasonCodes.go","vlauth/auth.go","vlpersistence/types.go"],[("description switches and tables","Error() methods")],["Error.Error","PropertyError.Error","ReasonCode.Error"])
p("C29","Asking who may send a reason code answers or fails consistently",
 "The issuer query returns a defined issuer with a nil error exactly for the reason codes valid for the packet type, and an error with the invalid issuer otherwise; the issuers server, client, both and invalid are distinct values. For DISCONNECT and AUTH the issuer named is the side, or both sides, that MQTT 5.0 allows to send the code.",
 ["inputs"],"all packet types x 256 codes",
 "the query has no test",
 [M+"reasonCodes.go"],[("issuer lookup","mqttp/reasonCodes.go PacketTypeDir"),("issuer constants","mqttp/reasonCodes.go CodeIssuer*")],["ReasonCode.PacketTypeDir"])
p("C30","Length-prefixed fields never overrun or truncate",
 "Reading a length-prefixed field returns exactly the announced bytes following the two-byte prefix, or an error if they are not all there. Writing one emits the exact length and bytes, or fails without emitting a prefix when the data exceeds 65535 bytes or the buffer is too short; no 16-bit length is ever wrapped.",
 ["inputs"],"all buffers x field lengths",
 "tests use five strings and two error cases",
 [M+"routines.go"],[("bounds checks","mqttp/routines.go ReadLPBytes, WriteLPBytes")],["ReadLPBytes","WriteLPBytes"])
p("C31","Variable byte integers are decoded strictly and sized exactly",
 "A variable byte integer is accepted only in its minimal form of one to four bytes (values 0 to 268435455), is decoded to its exact value, and its computed encoded length is the number of bytes encoding it emits; longer, non-minimal or unterminated forms are reported as errors.",
 ["inputs"],"all byte strings / all values",
 "tests try one overflow and one short buffer",
 [M+"header.go",M+"property.go"],[("decoder loop","mqttp/header.go uvarint"),("length computation","mqttp/header.go uvarintCalc")],["Decode","Size"])
p("M01","Live statistics counters are only touched atomically",
 "Every read and every write of a live statistics counter by the monitoring API is a single atomic operation, so concurrent updates are never lost and never race with readers; only private snapshots are accessed plainly.",
 ["schedules"],"all interleavings of counter operations",
 "the package has no tests",
 ["vlmonitoring/vlmetrics.go"],[("atomic adds and loads","vlmonitoring/vlmetrics.go AddU64, SubU64, Load, Get, LoadStore")],["Counter.AddU64","Counter.Diff","Max.AddU64","Load","Get"])
p("M02","The recorded maximum never falls below a value that was reached",
 "Under any interleaving of additions and subtractions, the recorded maximum never decreases and, once an addition returns, is at least the value that addition produced.",
 ["schedules"],"all interleavings of Max.AddU64 / SubU64",
 "the package has no tests; the lost update needs a precise interleaving",
 ["vlmonitoring/vlmetrics.go"],[("maximum update","vlmonitoring/vlmetrics.go Max.AddU64")],["Max.AddU64","Max.Load"])
p("M03","Counter differences report each direction's own growth once",
 "The difference of a counter against a previous snapshot is the growth since that snapshot and advances the snapshot to the value read, so that successive differences add up to the total; sent and received counts are never mixed up, and subtracting n undoes adding n.",
 ["histories"],"all sequences of additions and differences",
 "the package has no tests",
 ["vlmonitoring/vlmetrics.go"],[("difference","vlmonitoring/vlmetrics.go Diff, LoadStore"),("flow direction","vlmonitoring/vlmetrics.go SentAddU64, RecvAddU64")],["Counter.Diff","FlowCounter.Diff","LoadStore"])
p("M04","Statistics counters are 64-bit aligned on 32-bit platforms",
 "In every statistics structure the API defines, each atomically updated 64-bit counter lies at a multiple of eight bytes when laid out for 32-bit platforms, so that atomic operations on it do not fault there.",
 ["configurations"],"all 32-bit target architectures x all counters",
 "tests run on amd64 only",
 ["vlmonitoring/vlmetrics.go"],[("structure layout","vlmonitoring/vlmetrics.go Stats and its parts")],["Stats"])
p("V01","Configuration normalisation keeps every entry or fails",
 "Normalising a configuration object returns a string-keyed map with exactly the input's entries when the input is a map whose keys are all strings, and an error with no map for anything else; it never panics and never changes its input.",
 ["inputs"],"all configuration objects",
 "the package has no tests",
 ["vltypes/config.go"],[("key conversion loop","vltypes/config.go NormalizeConfig")],["NormalizeConfig"])
p("V02","Unknown authorisation outcomes read as denial",
 "An authorisation status other than the explicit allow value is described as a denial, and access types other than read and write have no name.",
 ["inputs"],"all status and access values",
 "the package has no tests",
 ["vlauth/auth.go"],[("status description","vlauth/auth.go Status.Desc, AccessType.Type")],["Status.Desc","AccessType.Type"])
p("C32","Message expiry is reported in whole seconds and rounds towards expired",
 "A PUBLISH with an expiry time reports that time; it reports itself expired, with no time left, exactly when less than one whole second remains at the moment of the call, and otherwise reports the whole seconds (at least one, at most 2^32-1) that remain. A PUBLISH without expiry time never reports itself expired.",
 ["schedules","inputs"],"all expiry times up to 2^32-1 seconds away x all clock readings",
 "one test sleeps three seconds",
 [M+"publish.go"],[("clock comparison","mqttp/publish.go Expired")],["Publish.Expired"])
p("C33","Subscription options and QoS values are read from exactly their own bits",
 "For every options byte, the QoS, No Local, Retain As Published and Retain Handling accessors report exactly their own bits (0-1, 2, 3, 4-5) whatever the others are, and the raw value is the byte itself. A QoS value is valid exactly when it is 0, 1 or 2, and valid as a subscription result exactly when it is one of these or 0x80; only valid values have a QoS text. A topic made for a subscription reports the options it was made with.",
 ["inputs"],"all 256 option bytes and QoS values",
 "no test reads the option accessors of a byte with other bits set",
 [M+"packet.go",M+"qos.go",M+"types.go"],[("option accessors","mqttp/packet.go SubscriptionOptions.QoS, NL, RAP, RetainHandling, Raw"),("QoS validity","mqttp/qos.go IsValid, IsValidFull, Desc")],["SubscriptionOptions","QosType","Topic.Ops"])
p("C34","Packet type and version tables agree with the standard and with packets",
 "Every packet type has the standard's name and its own description; undefined types have neither. The default fixed-header flags are 2 for PUBREL, SUBSCRIBE and UNSUBSCRIBE and 0 for every other value. A type is valid exactly when the version defines it (AUTH from MQTT 5.0 on), and asking for an unknown version fails. A protocol version is valid exactly when it is 3, 4 or 5. A packet reports the name and description of its type.",
 ["inputs","configurations"],"all 256 type values x all 256 version values",
 "tests look at single values of the tables",
 [M+"packetType.go",M+"types.go"],[("type tables","mqttp/packetType.go typeName, typeDescription, typeDefaultFlags"),("validity","mqttp/packetType.go Type.Valid, ProtocolVersion.IsValid")],["Type.Name","Type.Desc","Type.DefaultFlags","Type.Valid","ProtocolVersion.IsValid"])
p("C35","A property value is read back only through the readers of its own kind",
 "For every property that is set or decoded, its value reports the kind the standard gives the property; the reader of that kind returns the value (the list reader all values when there are several), and every other reader fails with ErrPropertyWrongType and an empty result. The value given by the iteration behaves the same. A property that is not set, an undefined identifier, and any property of a packet before MQTT 5.0 reads as nil.",
 ["inputs"],"all properties x packet types x single and repeated values, set and decoded",
 "tests read a few properties through the matching reader only",
 [M+"property.go",M+"header.go"],[("typed readers","mqttp/property.go propertyToType.As*"),("lookup","mqttp/property.go Get, ForEach; mqttp/header.go PropertyGet")],["PropertyGet","PropertyForEach","PropertyToType"])
p("C36","Decode asks for more data exactly when the packet is incomplete",
 "When a buffer starts with an acceptable fixed header and ends before the packet does, Decode fails with ErrInsufficientDataSize, and once the remaining length is complete it reports the size of the whole packet. It never answers so when the bytes the fixed header announces are all present or when the remaining length is malformed (not minimal, or more than four bytes read), since more data could not help. For a buffer that holds more than the packet it fails reporting the packet's own size.",
 ["inputs","histories"],"all byte strings x packet types x versions, all ways of cutting a packet",
 "tests contain three incomplete buffers",
 [M+"header.go",M+"packet.go",M+"routines.go"],[("fixed header decoding","mqttp/header.go decode"),("variable byte integer","mqttp/header.go uvarint"),("truncated fields","mqttp/routines.go ReadLPBytes")],["Decode"])
p("C37","A received packet can be passed on unchanged",
 "Every packet that Decode accepts can be encoded again: Size succeeds and Encode into a buffer of that size succeeds. Decoding the result under the same protocol version gives a packet of the same type whose accessors, topics and properties report the same values.",
 ["inputs","histories"],"all accepted byte strings x versions, then encode and decode again",
 "tests start from packets built by setters, which cannot reach many of the states a peer can send",
 allcodec,[("what decoding stores is what encoding emits","decodeMessage(), size() and encodeMessage() of every packet type")],["Decode","Size","Encode"])
p("C38","A refused setter leaves the packet as it was",
 "When a call that sets or adds a part of a packet reports an error (client identifier, credentials, will, return codes, topic, QoS), every accessor reports what it did before the call and the packet is encoded as it would have been without the call.",
 ["inputs","histories"],"all packet shapes x all setters that can fail x all arguments",
 "tests look at the error of a refused call, not at the packet afterwards",
 [M+"connect.go",M+"connack.go",M+"publish.go",M+"suback.go",M+"unsuback.go",M+"auth.go"],[("arguments are validated before the first change","every setter that returns an error")],["Connect.SetClientID","Connect.SetCredentials","Connect.SetWill","Publish.Set","SubAck.AddReturnCodes","ConnAck.SetReturnCode","Auth.SetReasonCode"])
p("C39","A walk over topics visits each once, in order, and stops at the first error",
 "ForEachTopic of SUBSCRIBE and UNSUBSCRIBE packets calls the function once for every topic of the packet, in the order they were added. When the function returns an error, the walk stops there and returns that very error; otherwise it returns nil. The walk changes nothing, so that a later walk visits all topics again. A walk over the properties of a packet before MQTT 5.0 fails and visits nothing.",
 ["inputs"],"all packets of up to four (and of nine) topics x all positions of the failing call",
 "tests walk without a failing callback",
 [M+"subscribe.go",M+"unsubscribe.go",M+"header.go"],[("iteration","mqttp/subscribe.go ForEachTopic; mqttp/unsubscribe.go ForEachTopic; mqttp/header.go PropertyForEach")],["Subscribe.ForEachTopic","UnSubscribe.ForEachTopic","PropertyForEach"])
p("C40","A setter sets what its accessor reports, and nothing else",
 "After a setter call that does not report an error, the accessor of the part it sets reports the value given (identifier, flags, topic, payload, origin, codes, session present, clean session, keep alive, client identifier, credentials, protocol version), added return codes follow those already there, and every other accessor, topic and property of the packet reports what it did before. Reasons of acknowledgements exist only in MQTT 5.0; before it, setting one changes nothing.",
 ["inputs","histories"],"all packet shapes and all pairs of calls on new packets x all setters x all arguments",
 "tests call a setter once on a new packet and read one accessor",
 [M+"header.go",M+"connect.go",M+"connack.go",M+"publish.go",M+"puback.go",M+"suback.go",M+"unsuback.go",M+"disconnect.go",M+"auth.go"],[("setters and accessors","Set… and Add… methods of every packet type")],["SetPacketID","SetVersion","Publish.Set","Publish.SetPublishID","Connect.SetKeepAlive","ConnAck.SetSessionPresent","SubAck.AddReturnCodes","Disconnect.SetReasonCode"])
p("C41","A packet is encoded by the rules of the version set last",
 "When a packet was built as an MQTT 5.0 packet, with properties, reasons and codes, and its version is then set to an older one, Encode emits the packet of the older version: no property block in any packet, no reason in acknowledgements and DISCONNECT, no codes in UNSUBACK; everything else as it was. Size reports that length.",
 ["inputs","histories"],"all packet shapes with all properties x older versions (CONNECT excepted, whose level is part of it)",
 "tests set the version before anything else",
 [M+"header.go",M+"puback.go",M+"disconnect.go",M+"unsuback.go",M+"suback.go",M+"publish.go",M+"subscribe.go",M+"unsubscribe.go",M+"connack.go"],[("version tests in size and encodeMessage","every packet type")],["SetVersion","Size","Encode"])
p("P01","A plugin descriptor reports exactly what it was built with",
 "For every descriptor, Name, Desc and Type report the text of their own field unchanged, also when it is empty, and Version reports the API version followed by the plugin's version.",
 ["inputs"],"all texts",
 "there are no tests",
 ["vlplugin/plugin.go"],[("accessors","vlplugin/plugin.go Descriptor")],["Descriptor.Version","Descriptor.Name","Descriptor.Desc","Descriptor.Type"])
p("N02","Persistence and session backends keep what was stored",
 "Whatever a persistence, authentication or subscriber provider accepted is what it later returns, also after a restart.",
 ["crash_points","histories"],"all operation histories of a provider",
 "there is no implementation in this repository",
 ["vlpersistence/types.go","vlauth/auth.go","vlsubscriber/subscriber.go"],[("interface contracts","vlpersistence/types.go")],[])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
