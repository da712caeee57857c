package main

// checks lists the decided properties.
var checks map[string]check

func init() {
	checks = map[string]check{
		"C01": {checkC01, "over every protocol version and every buffer of every packet type, no panic edge leaves Decode and exactly one of packet and error is nil in every final abstract state"},
		"C02": {checkC02, "every loop reached while decoding an arbitrary buffer and widened to a fixpoint has a ranking expression bounded by the unread bytes"},
		"C03": {checkC03, "in every final abstract state in which decoding succeeds the reported count equals the buffer length and the declared remaining length the bytes after the fixed header"},
		"C04": {checkC04, "no store reaches the input buffer's object; topic, payload and every value put in a property map is free of references to it"},
		"C05": {checkC05, "for every packet shape, Encode into a buffer of exactly Size() bytes succeeds and reports that number"},
		"C06": {checkC06, "for every packet shape, Encode into any shorter buffer fails with ErrInsufficientBufferSize and stores nothing; Size and Encode of any larger body fail with ErrInvalidLength"},
		"C08": {checkC08, "for every packet shape, all accessors report the same values before and after Size and Encode, and a second Encode emits the same bytes"},
		"C09": {checkC09, "for every packet shape without properties, the encoded bytes decode to a packet whose accessors report the same values"},
		"C10": {checkC10, "for every property on every packet type, the encoded bytes decode to the same values and encode again to the same bytes"},
		"C07": {checkC07, "for every packet shape, the content of a dirty buffer after Encode is one of the encodings the standard permits, with no byte of the old content"},
		"C11": {checkC11, "after every sequence of settings and discards, on fresh and on decoded packets, accessors, iteration, size and encoding are those of the properties set last"},
		"C12": {checkC12, "for every packet type and identifier, PropertySet and Decode accept it exactly where the standard's table says, with its type; a second occurrence only where the table says"},
		"C13": {checkC13, "for every packet type, identifier, Go value type and version, a setting outside the standard's tables fails and leaves accessors and size as they were; no accepted value lets Encode panic"},
		"C14": {checkC14, "for every packet type and version, a packet or setter with a code symbol restricted to the standard's table is accepted and reports it, one restricted to the complement is refused"},
		"C15": {checkC15, "New, every constructor and Decode give a packet of the Go type, type, version and first nibble asked for, or an error for types that do not exist"},
		"C16": {checkC16, "no accepting final state of Decode admits another flag nibble than the standard's; the first byte written is the type and the flags"},
		"C17": {checkC17, "for every CONNECT of unknown flags, identifiers, names and contents, each final state of Decode is compared in both directions with the standard's conditions; what an accepted one reports is what was sent"},
		"C18": {checkC18, "after every sequence of three calls of the setters of will, credentials and clean session with allowed and forbidden arguments, accessors and encoding are those of the last accepted values; forbidden calls fail"},
		"C19": {checkC19, "for every PUBLISH of unknown flags, topic, identifier, alias and payload, each final state of Decode is compared in both directions with the standard's conditions; no final state of Encode emits an invalid topic, DUP at QoS 0 or an empty topic without alias"},
		"C20": {checkC20, "in every accepting final state of Decode the two identifier bytes are inside the packet, not zero and what ID() reports; no packet without identifier is encoded"},
		"C21": {checkC21, "for every SUBSCRIBE and UNSUBSCRIBE of tabled list lengths with an arbitrary topic and options at each place, each final state of Decode is compared in both directions with the standard's conditions; topics are delivered in order; none is emitted without topics"},
		"C22": {checkC22, "for every text, the regular languages known in each final state of the validators are compared with the MQTT grammar in both directions; parts reported are the slices the grammar names"},
		"C23": {checkC23, "the clone's accessors, properties, expiry and encoding are those of the original reduced to the end-to-end parts; the original's are unchanged"},
		"C27": {checkC27, "no function that can run after initialisation writes memory derived from a package-level variable or starts a goroutine; no final state has written an initial object; no accessor gives one away; new packets and clones are disjoint but for byte slices"},
		"C28": {checkC28, "for every declared value of every error type, the text is not empty, not the one of undeclared values and not that of another value"},
		"C29": {checkC29, "for all codes and packet types: a nil error and a defined issuer exactly for valid codes; the issuers are distinct and those of the standard for DISCONNECT and AUTH"},
		"V02": {checkV02, "for all integers: the texts of a status are the granting ones exactly for StatusAllow, the access names exactly those of the declared access types"},
		"C30": {checkC30, "for all buffers and fields, the content, count and error of the two primitives are the definition's; no packet with a longer field is encoded and every prefix is the field's length"},
		"M01": {checkM01, "every function of the monitoring API touches its live counters only by atomic operations, and no value stored was read before"},
		"M02": {checkM02, "every change of a recorded maximum is a compare-and-swap to a value that is not less; on every return of an addition it was seen to be at least the sum"},
		"M03": {checkM03, "with arbitrary changes by others in between: each update changes exactly its own counter by n, each difference is the value read minus the snapshot, which becomes the value read"},
		"M04": {checkM04, "in every structure of the API, laid out for each 32-bit architecture, each 64-bit integer lies at a multiple of eight"},
		"V01": {checkV01, "for maps of up to four entries with every mix of string and other keys, all keys and values unknown, nil maps and other dynamic types: entries, errors and input are as defined"},
		"C31": {checkC31, "for every byte string, the reader's value and count are those of the standard's definition; every length field and subscription identifier is emitted minimally and counted exactly"},
		"C32": {checkC32, "for every instant and every reading of the clock: expired only with less than a second left; otherwise the whole seconds left, at least one"},
		"C24": {checkC24, "from every prior state of the flag byte, each setter sets its own accessor to the given value and changes no other, or fails and changes nothing"},
		"C33": {checkC33, "for all bytes: every accessor of the subscription options is exactly its own bits, QoS validity exactly 0, 1, 2 (and 0x80); a subscription carries the options it was made with"},
		"C34": {checkC34, "for all types and versions: names are those of the standard, texts distinct, flags and validity the standard tables; packets report those of their type"},
		"C35": {checkC35, "for every property set or decoded: its value is given by the readers of its kind and by no other; what is not set reads as nil"},
		"C36": {checkC36, "in every failing final state of Decode the demand for more data appears exactly when the packet is incomplete, with the total size once the fixed header is complete"},
		"C37": {checkC37, "for every decoded packet: it encodes, and the encoding decodes to the same accessor values"},
		"C38": {checkC38, "for every setter that can fail, every argument and every packet shape: a refused call leaves all accessors and the encoding as they were"},
		"C39": {checkC39, "for packets of up to four topics with unknown texts and a callback that fails at any one of them or at none: the topics visited are the added ones in order up to the failing one, and its error is returned"},
		"C40": {checkC40, "for every packet shape and every setter with unknown arguments: an accepted call makes its own accessors report the arguments and leaves all others as they were"},
		"C41": {checkC41, "for every 5.0 packet shape set to an older version: the encoding is exactly the packet of that version, without properties and reasons"},
		"P01": {checkP01, "for a descriptor of unknown texts: every accessor reports its own text, and the version comes with the API version"},
		"C25": {checkC25, "no successful final state of decode has passed through a failing component, no successful encode either"},
		"C26": {checkC26, "every reason code value in a failing final state under protocol 5.0 is in the standard's table of error codes; under any other version it is not the code of success"},
	}
}
