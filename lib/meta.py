"""Single source of properties.jsonl and MANIFEST.json: python3 lib/meta.py writes both."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLRD = "src/rdata/"
EDGE = "; specimens of the record types in further shapes: character-strings of 31..254 bytes, names with 62-byte labels and of 127 labels, blobs of 31..4096 and of 32767, 32768 and 65000 bytes (symbolic octets at their ends), 17 and 255 TXT strings, bitmaps with every type or every type but one, SVCB with many parameters"
MUT = "; one record of each type and shape, whole, and with every window of 1 to 3 octets from the RDLENGTH on replaced by any others (per type and shape: lib/plan.py uses())"
READ = "; any RDATA of up to 4..21 octets per type (lib/plan.py rdlens()) and every window of 1 or 2 octets of a specimen replaced by any others, against an independent reader (harness/src/read.rs)"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms, bounds
P = []


def prop(id, title, statement, over, text, why, files, mech, bounds):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), bounds=bounds))


prop("C01", "Parsing is total: any bytes give a packet or an error",
     "Parsing a packet, or any part of one the library can parse, from an arbitrary byte string always ends and either yields a value or an error. It never panics, overflows, recurses without bound, loops forever, reads outside the input or allocates out of proportion to it.",
     ["inputs", "configurations"], "every byte string, every start position of a partial parser, both feature sets",
     "The tests parse about a dozen hand-written well-formed messages; a network peer chooses the bytes, and the failing ones (pointer cycles, lengths at the edge of the buffer, reserved bits) are a vanishing part of the space.",
     ["src/buffer.rs", "src/packet.rs", "src/header.rs", "src/question.rs", "src/resource.rs", "src/fqdn.rs", "src/rdata/"],
     [("bounds-checked cursor", "src/buffer.rs DnsBuffer"), ("pointer following in names", "src/buffer.rs extract_fqdn"), ("dispatch on the record type", "src/rdata/mod.rs"), ("one parser per record type", "src/rdata/*.rs")],
     "all messages of up to 13 bytes (14 thorough); after a concrete header with one question, one record in each section, two questions or a question and a record: all bodies of up to 9..17 bytes; for each of the 37 record types a record with all RDATA of the lengths listed in lib/plan.py (up to 25 bytes; for SOA, MINFO, SVCB, TKEY, TSIG, RRSIG, NSEC the longer ones with one name fixed to the root); pointer chains of up to 3000 pointers; partial parsers on up to 14 bytes from every position" + MUT + EDGE)
prop("C02", "A packet that was accepted can be used without failure",
     "For every byte string that parses, every accessor, both serialisations, cloning, comparing and size computations of the resulting packet work without panicking, and the compressed form is never longer than the plain one.",
     ["inputs", "configurations"], "every accepted byte string, both feature sets",
     "Tests only serialise values they built themselves; values that only the parser can create (unknown codes, empty labels, huge counts, odd names) are not among them.",
     ["src/packet.rs", "src/header.rs", "src/resource.rs", "src/fqdn.rs", "src/rdata/"],
     [("conversion of code points that the parser let through", "src/header.rs, src/resource.rs"), ("serialisation of every RDATA", "src/rdata/*.rs"), ("compression", "src/fqdn.rs to_bytes_compressed, src/packet.rs")],
     "as C01, with bodies of up to 8..13 bytes" + MUT + EDGE)
prop("C03", "Header bits are read and written as RFC 1035 lays them out",
     "Parsing a header and reading its fields gives exactly the identifier, flags, operation code and response code at the positions RFC 1035 section 4.1.1 assigns, a header whose response code is not assigned is rejected, and writing a parsed header gives the same twelve bytes.",
     ["inputs", "configurations"], "all 2^96 headers, both feature sets",
     "Tests look at a handful of flag words; a swapped or shifted flag needs the one bit pattern that tells them apart.",
     ["src/header.rs", "src/packet.rs"], [("bit field layout", "src/header.rs Header"), ("conversions of the codes", "src/header.rs OpCode, ResponseCode")],
     "none on the values: all 12-byte headers; truncated ones of 0..11 bytes")
prop("C04", "Header setters change their own field only",
     "After any sequence of constructor and setter calls on a header or packet, every field has the last value given to it, all other bits are unchanged, and the first four bytes on the wire show exactly that. Marking a message as a query clears the server-only fields and setting a server-only field marks it as a response; nothing else interacts.",
     ["histories", "inputs"], "every history of constructors and setters, every argument, starting from every header",
     "Tests set each flag at most once on a fresh header.",
     ["src/header.rs", "src/packet.rs"], [("setters of the bit field", "src/header.rs"), ("forwarding from the packet", "src/packet.rs")],
     "histories of up to 3 setter calls (4 thorough) on any starting header, all argument values")
prop("C05", "Section counts and contents follow every mutation",
     "After any history of adding, setting, taking or editing questions and records and of replacing the header, the four counts on the wire equal the numbers of entries in the sections, and the sections hold exactly those entries in order, in the plain and in the compressed form.",
     ["histories", "configurations"], "every history of packet mutations",
     "Tests add a question or an answer once; counts that go stale after another mutator or wrap at 256 entries do not show.",
     ["src/packet.rs", "src/header.rs"], [("counts written on serialisation", "src/packet.rs to_bytes, to_bytes_compressed"), ("mutators", "src/packet.rs")],
     "histories of up to 3 mutations from 5 kinds of starting packets, with up to 2 entries per call; sections of up to 300 entries (4096 thorough)")
prop("C06", "Questions round trip in the RFC 1035 / RFC 6762 format",
     "A question is written as name, type and class and reads back equal; parsing accepts exactly the assigned types and classes and consumes exactly the question. With multicast DNS enabled the top bit of the class is the unicast-response flag and is independent of the class; without it that bit is ignored.",
     ["inputs", "configurations"], "every name, type word and class word, both feature sets",
     "Tests parse a few questions of type A or PTR and class IN.",
     ["src/question.rs"], [("question parser and writer", "src/question.rs"), ("type and class tables", "src/question.rs QType, QClass")],
     "all type and class words; names: root, 1-3 short labels, a 63-byte label, a 255-byte name")
prop("C07", "Records are framed exactly by RDLENGTH",
     "A record is written as owner, type, class, TTL, RDLENGTH and RDATA with RDLENGTH equal to the number of RDATA bytes written. Parsing a record reads only the RDLENGTH bytes as its data, ends exactly behind them, does not depend on what follows, and rejects an RDLENGTH beyond the end. With multicast DNS enabled the top bit of the class is the cache-flush flag.",
     ["inputs", "configurations"], "every record of every type, every RDLENGTH, every following byte, both feature sets",
     "Tests never put a record in front of other bytes or give it a wrong RDLENGTH.",
     ["src/resource.rs", "src/buffer.rs", "src/rdata/"], [("RDLENGTH and the sub buffer of the RDATA", "src/resource.rs, src/buffer.rs sub_buffer"), ("RDATA parsers that read to the end", "src/rdata/*.rs")],
     "all class words and TTLs; all RDATA of the four largest lengths of C01 per type followed by any 6 bytes; for a valid RDATA of each of 37 types every shorter RDLENGTH and two longer ones" + EDGE)
prop("C08", "Names are decoded exactly as RFC 1035 4.1.4 says",
     "Decoding a name at any position of any message yields the labels an independent reference decoder yields and leaves the cursor right behind the name. It is rejected exactly when it leaves the message, uses a reserved label type or contains a pointer that does not point strictly backwards.",
     ["inputs"], "every message and start position",
     "Tests contain two messages with a compression pointer each.",
     ["src/buffer.rs"], [("label and pointer walk", "src/buffer.rs extract_fqdn")],
     "all messages of up to 9 bytes (11 thorough) from every position; layouts with long labels, pointers to offsets up to 16383, chains of up to 200 (3000) pointers, names of 255 bytes and 127 labels")
prop("C09", "Names round trip through their wire form",
     "Any name with labels of 1 to 63 bytes is written as length-prefixed labels with a zero at the end, its reported length is the number of bytes written, and it reads back equal from any position, in a question, as an owner or inside record data, plain or compressed.",
     ["inputs"], "every sequence of labels of any bytes",
     "Tests use ASCII host names.",
     ["src/fqdn.rs", "src/buffer.rs"], [("name writer", "src/fqdn.rs to_bytes, to_bytes_compressed"), ("name reader", "src/buffer.rs extract_fqdn")],
     "up to 3 labels of up to 3 any bytes; labels of 62 and 63 bytes; names of 255 bytes; 127 labels")
prop("C10", "Compression changes the size of a packet, never its meaning",
     "Following the pointers of a compressed packet gives exactly the plain packet; every pointer refers to an earlier name below offset 16384, repeated names are really replaced, and parsing the compressed packet yields the same sections.",
     ["inputs", "histories"], "every packet, every way names share suffixes, every offset",
     "Tests compress one or two packets; wrong offsets need a particular combination of record types, shared suffixes and sizes.",
     ["src/fqdn.rs", "src/packet.rs", "src/resource.rs", "src/rdata/"], [("table of name suffixes and offsets", "src/fqdn.rs to_bytes_compressed"), ("offsets handed to the RDATA", "src/resource.rs, src/rdata/*.rs to_bytes_compressed")],
     "a question and two records of 10 kinds over names of up to 3 symbolic labels sharing any suffixes; all 37 record types behind a question; offsets around 256, 0x3fff and 0x7fff; longest labels. The suffix table's hash is modelled as injective" + EDGE)
prop("C11", "Predicted sizes equal the bytes written",
     "For every name, header, question, record, record data, record set and packet the reported byte size equals the length of its plain serialisation.",
     ["inputs"], "every value of every type",
     "A few sizes are asserted in tests for single values, one of them wrong (known finding for SVCB).",
     ["src/byteconvertible.rs", "src/rdata/", "src/resource.rs", "src/question.rs", "src/fqdn.rs", "src/packet.rs"], [("size computation next to each writer", "byte_size in every module")],
     "the specimens of C12..C15, C20, C26 at three size levels (fields up to 300 bytes), questions, records, packets, sets" + EDGE)
prop("C12", "Fixed-layout and text record data follow their RFCs",
     "The data of A, AAAA, NULL, WKS, HINFO, TXT, LOC, SSHFP, IPSECKEY, DHCID, TLSA, HIP, OPENPGPKEY, EUI48, EUI64, URI and CAA records is written byte for byte as its RFC lays it out, is accepted, and reads back as the same value. Octets that do not have that layout, that end early or that hold an unassigned code are rejected, all others are accepted and read as what they say; reserved flag bits are ignored.",
     ["inputs", "configurations"], "every value of every field, several sizes of the variable parts",
     "Most of these types have one test value or none.",
     ["src/rdata/a.rs", "src/rdata/aaaa.rs", "src/rdata/txt.rs", "src/rdata/hinfo.rs", "src/rdata/loc.rs", "src/rdata/caa.rs", "src/rdata/tlsa.rs", "src/rdata/sshfp.rs", "src/rdata/ipseckey.rs", "src/rdata/hip.rs", "src/rdata/uri.rs", "src/rdata/wks.rs", "src/rdata/dhcid.rs"],
     [("parser and writer per type", "src/rdata/*.rs")],
     "all values of the fixed fields; variable parts of 0,1,3 / 2,16,64 / 255,256,300 any bytes; character-strings of 0..2, 3, 64, 255 bytes; TXT of up to 2 strings of UTF-8 (up to 4 bytes) or ASCII text" + EDGE + READ)
prop("C13", "Record data with names follows its RFC, compressed names included",
     "The data of NS, CNAME, PTR, SOA, MINFO, MX, SRV and NAPTR records is written byte for byte as its RFC lays it out and reads back as the same value, also when the names in it are given as compression pointers; types whose names must not be compressed are read correctly or rejected. Octets that do not have that layout, that end early or that hold an unassigned code are rejected, all others are accepted and read as what they say; reserved flag bits are ignored.",
     ["inputs"], "every value of every field, every pointer form",
     "Tests parse such records with one fixed name each.",
     ["src/rdata/ns.rs", "src/rdata/soa.rs", "src/rdata/mx.rs", "src/rdata/srv.rs", "src/rdata/naptr.rs", "src/rdata/minfo.rs", "src/buffer.rs"],
     [("parser and writer per type", "src/rdata/*.rs"), ("pointers out of the RDATA", "src/buffer.rs sub_buffer")],
     "all field values; names as C09; a pointer, a label and a pointer, or no pointer for each name, for 15 types" + EDGE + READ)
prop("C14", "Type bitmaps hold exactly the listed types",
     "The type bitmaps of NSEC and CSYNC records are written as RFC 4034 4.1.2 lays out for the listed set of types, and parsing yields exactly the types whose bits are set; a bitmap with an unassigned type or a window of more than 32 octets is rejected.",
     ["inputs"], "every set of types, every bitmap",
     "Tests use three fixed bitmaps in one or two windows.",
     ["src/rdata/csync.rs", "src/rdata/dnssec.rs"], [("window walk", "src/rdata/dnssec.rs Nsec, src/rdata/csync.rs")],
     "all sets of up to 2 types, all subsets of groups of 6 adjacent types plus a far one; all windows with bitmaps of up to 2 octets (3 thorough); windows of 1, 8, 32 and 33 octets with any one octet set; two and three windows" + EDGE + READ)
prop("C15", "SVCB parameters are kept exactly and in order",
     "An SVCB record is read as priority, target and parameters whose values have exactly the declared length; values of the wrong size or leaving the record are rejected. Parameters and mandatory keys are written in ascending order of their keys with their values unchanged, and priority zero means alias mode.",
     ["inputs"], "every record with any parameters",
     "Tests parse one record and write one.",
     ["src/rdata/svcb.rs"], [("parameter parser and writer", "src/rdata/svcb.rs"), ("order of the parameters", "src/rdata/svcb.rs Ord")],
     "up to 2 parameters of all 9 kinds with values of up to 300 bytes; all keys; all value lengths up to 18; three parameters in any order; any RDATA of up to 12 bytes behind a root target" + EDGE + READ)
prop("C16", "Code points map one to one to their assigned meaning",
     "Every record type, query type, class, operation code, response code and type-specific code the library knows has its assigned number in both directions, every other number is an error (or the documented catch-all), and the type number of a record decides how its data is read.",
     ["inputs", "configurations"], "all 16-bit numbers, both feature sets",
     "Tests touch the codes that happen to be in their messages.",
     ["src/resource.rs", "src/question.rs", "src/header.rs", "src/rdata/mod.rs"], [("conversion tables", "TryFrom<u16>/From<...> for u16 of each enumeration")],
     "none: all numbers")
prop("C17", "The buffer cursor never leaves the buffer",
     "Any sequence of buffer operations behaves like a cursor over the bytes: each read returns exactly the bytes at the cursor and advances by them, each read or move beyond the end fails and moves nothing, and a sub buffer covers exactly the requested bytes.",
     ["histories", "inputs"], "every buffer, every sequence of operations, every length argument up to the largest integer",
     "There is no test of the buffer beyond in-range reads.",
     ["src/buffer.rs"], [("cursor and bounds checks", "src/buffer.rs DnsBuffer")],
     "buffers of up to 6 any bytes, sequences of 2-3 operations (4 thorough), all 64-bit arguments for moves and boundary values for lengths; single reads and moves with every length octet in buffers of 100 to 300 bytes")
prop("C18", "Truncated packets are rejected",
     "Every proper prefix of a valid packet is rejected, while the whole packet is accepted.",
     ["inputs"], "every valid packet, every cut",
     "No test parses a truncated packet.",
     ["src/packet.rs", "src/buffer.rs", "src/resource.rs", "src/question.rs"], [("bounds checks of every read", "src/buffer.rs"), ("sections read as counted", "src/packet.rs")],
     "packets with a question, a record of each of 37 types with any field values, and an A record; every cut in the first 250 bytes" + EDGE)
prop("C19", "Record sets have one canonical form",
     "A record set is serialised as its records with owner, type, class, original TTL and data in the canonical order of RFC 4034 6.3, independently of the order in which the records were given, and reordering a set sorts its records without adding or losing any.",
     ["inputs", "histories"], "every set of records in every order",
     "The tests only sign sets of one record.",
     ["src/resource_record_set.rs"], [("canonical order", "src/resource_record_set.rs to_bytes, canonical_reorder")],
     "sets of up to 3 records (4 thorough) with any data of up to 2 bytes, of 3 A, 2 MX, 2 SRV or 2 TXT records; 5 to 50 A records with two of them symbolic; 3 records of data that agrees for 6 to 4096 octets; all owners of the given shape, classes and TTLs")
prop("C20", "DNSSEC record data follows RFC 4034",
     "The data of DS, CDS, RRSIG, NSEC, DNSKEY and CDNSKEY records is written byte for byte as RFC 4034 lays it out, is accepted, and reads back as the same value; unassigned algorithm and digest numbers are rejected. Octets that do not have that layout, that end early or that hold an unassigned code are rejected, all others are accepted and read as what they say; reserved flag bits are ignored.",
     ["inputs"], "every value of every field",
     "Tests parse two NSEC records and build one DS; the other types are never parsed.",
     ["src/rdata/dnssec.rs", "src/rdata/mod.rs"], [("parsers and writers", "src/rdata/dnssec.rs")],
     "all values of the fixed fields, keys, digests and signatures of up to 300 any bytes, names as C09" + EDGE + READ)
prop("C21", "DS digests, key tags and DHCID digests cover what the RFCs say",
     "A DS made from a DNSKEY carries the key tag of RFC 4034 appendix B (B.1 for RSA/MD5), the algorithm of the key, and the digest, of the requested type, of owner name and DNSKEY RDATA; a DHCID carries the SHA-256 digest of identifier and name; digests print as hexadecimal digits, keys and signatures in base 64.",
     ["inputs"], "every owner name, flag combination, algorithm, digest type and key",
     "A wrong input to a hash gives a digest that looks like any other: the tests compare one DS and one key tag with a known value, so a mistake that needs an odd key length, a flag, another algorithm or a carry in the checksum is invisible to them.",
     ["src/rdata/dnssec.rs", "src/rdata/dhcid.rs"], [("digest of a key", "src/rdata/dnssec.rs Ds::try_from_dnskey"), ("key tag", "src/rdata/dnssec.rs key_tag"), ("identifier digest", "src/rdata/dhcid.rs Dhcid::new")],
     "digest functions ideal (injective); keys of 0..17 any bytes and of up to 1028 bytes with 4 symbolic ones (4000 thorough), owners of up to 3 labels or one of 63 bytes without upper-case letters, all algorithms and digest types; identifiers of up to 300 bytes; printed forms of up to 7 (12) any bytes and of up to 1100 with 4 symbolic ones")
prop("C22", "An RRSIG covers its fields and the canonical record set, and verifies for nothing else",
     "Signing a set yields an RRSIG with the fields of RFC 4034 3.1 (wildcard label not counted, times in seconds) whose signature is that of the key over those fields and the records in canonical order with the original TTL; verifying accepts exactly the signatures of the given key over the presented fields and set, in any order of the records and with any current TTL; a key of another algorithm, a malformed key or signature or a time before 1970 gives an error or a refusal, never a panic.",
     ["inputs", "histories"], "every set, set of RRSIG fields, key and signature, and every difference between what was signed and what is presented",
     "The tests sign one set and verify the same set: what the signature covers is never compared with the RFC, and no altered field, reordered set or foreign key is ever presented.",
     ["src/rdata/dnssec.rs", "src/resource.rs"], [("signed data", "src/rdata/dnssec.rs Rrsig::from_dnskey, Rrsig::verify"), ("choice of scheme and key format", "src/rdata/dnssec.rs Algorithm::sign_data, verify"), ("canonical order", "src/resource.rs ResourceRecordSet")],
     "signature schemes and digests ideal; all 9 algorithms; sets of 1 to 3 (4 thorough) distinct A or NULL records with RDATA of up to 4 bytes (of up to 1000 with 1 symbolic one for 2 records, except RSA); owners of up to 3 labels without upper-case letters; all values of the RRSIG fields; 16 kinds of difference between signed and presented; unfit keys of up to 6 (11) bytes and signatures of up to 7 (41) bytes")
prop("C23", "Whatever was accepted survives being written and read again",
     "If a byte string parses, then writing the resulting packet, plain or compressed, gives bytes that parse to an equal packet, and the plain form is a fixpoint.",
     ["inputs", "configurations"], "every accepted byte string, both feature sets",
     "Tests round trip values they built, not what the parser makes of unusual input.",
     ["src/packet.rs", "src/resource.rs", "src/question.rs", "src/rdata/"], [("parser and writer of every part", "src/*.rs, src/rdata/*.rs")],
     "bodies of up to 8 bytes with a question and up to 13 with a record; RDATA of any bytes per type as C01; packets with every record type. TXT and CAA texts that are not UTF-8 change (known limit, see DESIGN.md)" + MUT + EDGE)
prop("C24", "Errors have a finite chain of causes",
     "Walking the causes of any error the library returns ends, and an error with an underlying cause names it.",
     ["inputs"], "every error of every operation",
     "No test looks at the cause of an error.",
     ["src/error.rs"], [("source of an error", "src/error.rs")],
     "the errors of all parsers on any bytes of the given sizes, of all conversions, of signing with times before the epoch")
prop("C25", "Names built from text have the labels of the text",
     "A name built from text consists of the non-empty parts between the dots, prints as its labels joined by dots, compares equal exactly if the labels are equal, and its queries (root, link-local, label count) and label appending agree with its labels.",
     ["inputs"], "every text, every sequence of labels",
     "Tests use ordinary host names.",
     ["src/fqdn.rs"], [("splitting, printing, comparing", "src/fqdn.rs")],
     "all 7-bit texts of up to 6 bytes (8 thorough); link-local queries of last labels of up to 7 octets; printing of up to 2 labels of 2 characters and of one label of up to 3 any bytes")
prop("C26", "EDNS, address list and transaction record data follow their RFCs",
     "The data of OPT, APL, TKEY and TSIG records is written as RFC 6891, 3123, 2930 and 8945 lay it out and reads back as the same value; several EDNS options survive whatever their order, short address parts are filled with zeros and oversized ones rejected. Octets that do not have that layout, that end early or that hold an unassigned code are rejected, all others are accepted and read as what they say; reserved flag bits are ignored.",
     ["inputs"], "every value of every field",
     "APL, TKEY and TSIG have no or one test value; OPT is tested with one option.",
     ["src/rdata/opt.rs", "src/rdata/apl.rs", "src/rdata/tkey.rs", "src/rdata/tsig.rs"], [("parser and writer per type", "src/rdata/*.rs")],
     "all field values, variable parts of up to 300 bytes, up to 3 options (4 thorough) with any codes and up to 2 bytes each, address parts of 0 to 19 bytes" + EDGE + READ)
prop("C28", "Values are equal exactly if their contents are",
     "Two names, headers, questions, records, record data of any type or packets compare equal exactly if all of their contents (names octet for octet, types, classes, flags, times, data, sections) are the same; a clone is equal to its original; the order of names is total and agrees with their equality.",
     ["inputs"], "every pair of values",
     "Tests compare one parsed value with one built value; that different values differ is never tested.",
     ["src/fqdn.rs", "src/header.rs", "src/question.rs", "src/resource.rs", "src/packet.rs", "src/rdata/"], [("derived or written comparisons", "PartialEq, Eq, Ord in every module")],
     "any two names of up to 3 short labels or of 9 long shapes, headers, questions, records with up to 2 octets of data; packets that differ in one place; a record of each type and shape against the same one with any window of 1 or 2 octets replaced by any others (as C12)")
prop("C29", "Editing a value in place gives the same as building it anew",
     "After any sequence of setter calls on a question or record, also inside a packet, or of edits of the labels of a name, the edited fields have their new values, all others their old ones, earlier clones are unchanged, and the value equals, and is written as, one built with those fields.",
     ["inputs", "histories"], "every sequence of edits with any values",
     "Tests never edit a question, record or name after building it.",
     ["src/question.rs", "src/resource.rs", "src/fqdn.rs", "src/packet.rs"], [("setters and mutable accessors", "set_*, data_mut, questions_mut, iter_mut, append_label")],
     "histories of up to 3 edits of questions, 2 of records (3 thorough), 5 of names (7 thorough), any values, names of up to 2 labels, data of up to 2 octets; both feature sets")
prop("C30", "Addresses and names in A, AAAA and PTR data convert without change",
     "The data of A and AAAA records converts to and from numbers (big endian), std addresses and text exactly as std defines it, for every address; exactly the texts of addresses are accepted; access in place to the address or name in A, AAAA and PTR data reads and changes that value only.",
     ["inputs"], "every address, every text",
     "Tests use one address each.",
     ["src/rdata/a.rs", "src/rdata/aaaa.rs", "src/rdata/ptr.rs"], [("conversions", "From and TryFrom impls, inner, inner_mut, into_inner")],
     "all 2^32 and 2^128 addresses; IPv4 texts: any last part of up to 4 characters, any text of 7 to 16 characters; IPv6: any text of up to 8 (11 thorough) characters")
prop("C31", "A rejected code is named by the error",
     "Where a type, class, response code or type-specific code is rejected because it is not assigned, in a conversion or anywhere in a packet, the error is the one for that kind of code and carries its value; a compression pointer that does not point back is reported as such.",
     ["inputs", "configurations"], "every value of every code",
     "Tests never look at an error.",
     ["src/error.rs", "src/resource.rs", "src/question.rs", "src/header.rs", "src/rdata/"], [("errors with the offending value", "DnsError::Invalid*")],
     "all values of every code table; complete records of 16 types with any codes in them, one or several of them wrong; NSEC bitmaps of one window of up to 2 octets; pointers at 3 positions")
N = {}


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, "")
    N[id] = reason


na("C27", "Signatures and digests are computed by sound cryptography",
   "A signature made with a private key verifies under the matching public key and under no other, and digests are those of the named algorithm.",
   ["inputs"], "every key and message",
   "Tests sign one set with one fresh key for some algorithms.",
   ["src/rdata/dnssec.rs"], [("calls into ring, rsa, dsa, crrl", "src/rdata/dnssec.rs sign_data, verify")],
   "decided by the bodies of SHA-2, RSA, DSA, ECDSA and EdDSA in third-party crates (partly assembly), whose algebra no SMT encoding within reach decides; the crate's own part (what is hashed, signed and compared) is C21 and C22, with the primitives as ideal functions")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            q = {k: v for k, v in p.items() if k != "bounds"}
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    man = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in sorted(N.items())])
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] in N:
            continue
        man["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                                  technique="symbolic execution of the crate's LLVM IR, assertions decided by Z3, counterexamples replayed natively",
                                  level="model_checking",
                                  level_note="every path and every value within the bounds; bounds: " + p["bounds"]))
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
