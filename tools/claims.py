NOTE_ENC="Decided over abstract packets: every setter sequence of the scenario tables with arbitrary values (strings, payloads and lists of symbolic content and length; list lengths up to the tabled bounds), for every protocol version. Trusts the analyser's transfer functions and its models of the standard library. An obligation it cannot decide is reported."
CLAIMED={i:(AI,NOTE_DEC) for i in "C01 C02 C03 C04 C17 C25 C26 C36".split()}
CLAIMED.update({i:(AI,NOTE_ENC) for i in "C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18 C19 C20 C21 C22 C23 C24 C32 C35 C37 C38 C39 C40 C41".split()})
NOTE_DECL="Every declared value is enumerated from the type-checked package; undeclared values are one abstract value each. Trusts the analyser's transfer functions. An obligation it cannot decide is reported."
CLAIMED.update({i:(AI,NOTE_DECL) for i in "C28 C29 C33 C34 V02 P01".split()})
NOTE_PRIM="Decided for every buffer and field of symbolic content and length (C30), every byte string of any length (C31). Other checks use the variable-byte-integer reader through a summary; the check proves the summary on the current source before using it. An obligation it cannot decide is reported."
CLAIMED.update({i:(AI,NOTE_PRIM) for i in "C30 C31".split()})
NOTE_MON="Each API function is interpreted with a live counter that others change between any two operations: every atomic read gives an unknown value, a compare-and-swap may succeed or fail (paths with more than three failures are cut, each attempt starts from unknown values again). Counters are taken to stay below 2^60. Trusts Go's memory model for sync/atomic."
CLAIMED.update({i:("interference abstraction: "+AI,NOTE_MON) for i in "M01 M02 M03".split()})
CLAIMED["M04"]=("structure layout computed from the type-checked program with the compiler's size rules for each 32-bit architecture","Trusts the layout rules of go/types for gc; assumes the structures themselves are allocated aligned to eight bytes, as sync/atomic requires of its callers for allocated words.")
CLAIMED["C27"]=("interprocedural flow rule over the SSA form (package-level memory followed through all functions that can run after initialisation) and "+AI,"The flow rule covers every function; the interpreter covers Decode of every buffer, and accessors, setters and Encode of every packet shape. Memory the caller hands to a packet (a will, a topic) is the caller's. Race-freedom follows because nothing but initialisation writes what two packets can both reach.")
CLAIMED["V01"]=(AI,"Decided for nil maps, maps of up to four entries with every mix of string and other keys and values of every kind (nil, nested maps, lists), string-keyed maps, and values of every other kind of dynamic type. An obligation it cannot decide is reported.")
NA={
 "N02":"the repository declares only the interfaces; the providers that store data live in other repositories, so there is no code here to decide it on",
}
