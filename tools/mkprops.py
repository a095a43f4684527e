import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
I=['inputs'];H=['histories'];C=['configurations']
p('C01','Time points are ordered consistently across clock wrap-around',
 'For any two time points closer than half of the 64-bit microsecond range, exactly one of "before", "after" and "equal" holds wherever they lie on the clock (including across wrap-around), "a before b" means "b after a", and a time point advanced by a positive (negative) duration is after (before) the original. Among time points that all lie within half the range of each other the order is transitive.',
 I,'all pairs and triples of 64-bit time points within the half range','17 tests use fixed values; the wrap-around boundaries are 2^128 pairs',
 ['src/clock/clock_timepoint.hpp'],[('is_after / is_before modular comparison','src/clock/clock_timepoint.hpp')],
 observe=['Timepoint::is_after','Timepoint::is_before','Timepoint::operator=='])
p('C02','Time point arithmetic loses and invents no time',
 'Advancing a time point by a duration given in microseconds or any coarser unit and subtracting the original gives exactly that duration back, differences are antisymmetric and additive, and advances compose. Advancing from an accumulator of a finer-grained unit moves the time point by the whole microseconds and leaves in the accumulator exactly the sub-microsecond remainder, so the sum of both is unchanged.',
 I,'all 64-bit time points and all durations of each unit whose microsecond value is representable','tests use single values per unit',
 ['src/clock/clock_timepoint.hpp'],[('advance, advance_from, operator-','src/clock/clock_timepoint.hpp')],observe=['Timepoint::advance','Timepoint::advance_from','Timepoint::operator-'])
p('C03','Converting a system clock never drifts',
 'For any non-decreasing sequence of readings of the underlying clock, at any reading pattern and any clock resolution, the converted time points advance by exactly the elapsed time truncated to microseconds since the clock epoch and never accumulate rounding error, and they never go backwards.',
 H,'all sequences of up to k clock readings','no test drives the converter; only real time would',
 ['src/clock/clock_std.hpp','src/clock/clock_timepoint.hpp'],[('remainder carried between calls','ChronoClockConverter::now')],observe=['ChronoClockConverter::now'])
p('C04','RTP parsing never touches memory outside the packet',
 'For every byte sequence, parsing an RTP packet terminates, reads only bytes of that packet and executes no undefined behaviour; the payload and extension ranges it returns lie inside the packet, and the extension does not overlap the payload.',
 I,'all packets up to the stated length','tests sample some 20 packets',['src/rtp/rtp_packet.cpp'],[('length checks before each read','Packet::parse')],observe=['Packet::parse'])
p('C05','RTP header fields are decoded as RFC 3550 defines',
 'A packet is accepted exactly when it has version 2, a complete fixed header, all announced CSRCs, a complete announced extension, a padding count of at least one that fits and a payload type known to the payload map. For an accepted packet marker, payload type, sequence number, timestamp, SSRC, CSRC list, extension profile and range and payload range are those that RFC 3550 defines for its bytes, and the timestamp carries the clock of its payload type.',
 I,'all packets up to the stated length, all payload maps of stated size','tests sample values',['src/rtp/rtp_packet.cpp','src/rtp/rtp_payload_map.hpp','src/rtp/rtp_payload_type.hpp'],[('field extraction with masks','Packet::parse')],observe=['Packet::parse'])
p('C06','RTP parse statistics account for every packet exactly once',
 'Each parse increments exactly one of the success and error counters, according to the result it returns. A rejected packet also increments exactly one reason counter, the one for the reported reason, and no counter changes otherwise.',
 I,'all packets up to the stated length','tests check a few counters',['src/rtp/rtp_packet.cpp','src/stat/stat_counter.hpp'],[('stat.*.inc() on each exit','Packet::parse')],observe=['ParseStat counters'])
p('C07','RTP value types keep exactly the value they were given',
 'A payload type exists exactly for 0..127; payload types, sequence numbers, timestamps, SSRCs, clock rates and marker bits return the value they were built from, for every value of their width. A payload map finds for each payload type the clock rate it was given and nothing for any other type.',
 I,'all values of each width, all maps of stated size','tests use a handful of values',['src/rtp/rtp_payload_type.hpp','src/rtp/rtp_timestamp.hpp','src/rtp/rtp_sequence.hpp','src/rtp/rtp_ssrc.hpp','src/rtp/rtp_clock_rate.hpp','src/rtp/rtp_payload_map.hpp'],[('wrappers and range check','the listed headers')],observe=['value()','PayloadMap::rtp_clock_rate'])
p('C08','STUN parsing never touches memory outside the message',
 'For every byte sequence, parsing it as a STUN message terminates, reads only bytes of that message and executes no undefined behaviour, whatever lengths and types its header and attributes claim.',
 I,'all byte sequences up to the stated length','tests parse a few captured messages and mutations',['src/stun/stun_message.cpp','src/stun/stun_attribute.cpp','src/stun/stun_attribute_set.cpp'],[('checked reads in RawAttr::parse and each attribute parser','src/stun')],observe=['Message::parse'])
p('C09','STUN headers are accepted and decoded exactly as RFC 5389/3489 require',
 'A message without attributes is accepted exactly when it has the 20-byte header, zero in the two top bits, a length field that equals the rest of the message and is a multiple of 4, and the magic cookie (a request may lack it and is then flagged RFC 3489). The reported class, method, transaction id (96 bits, or 128 for RFC 3489) and flag are those encoded in the header.',
 I,'all headers','tests sample valid headers and single corruptions',['src/stun/stun_message.cpp','src/stun/stun_class.hpp','src/stun/stun_method.cpp','src/stun/stun_transaction_id.hpp'],[('header checks','Message::parse')],observe=['Message::parse'])
p('C10','STUN class and method codes combine into message types without loss',
 'For each of the 4 classes and 4096 methods the encoded 14-bit message type has the RFC 5389 bit layout with the top two bits zero, and decoding the type gives back the class and method. Every 14-bit type decodes to one class and one 12-bit method, and equality of classes and methods is equality of their codes.',
 I,'all 2^16 message types and all class/method pairs','tests use binding only',['src/stun/stun_class.hpp','src/stun/stun_method.cpp','src/stun/stun_method.hpp'],[('bit shuffling','Method::from_msg_type / to_msg_type, Class')],observe=['Class','Method'])
p('C11','STUN attributes are walked as the TLV rules require',
 'Attributes are taken in order with 4-byte padding; an attribute that overruns the message makes the whole message invalid; everything after MESSAGE-INTEGRITY other than FINGERPRINT is ignored; FINGERPRINT must be last. The first occurrence of a repeated attribute is the one reported, and attributes of unknown type are kept with their exact type and bytes.',
 I,'all attribute sequences up to the stated total length','tests use a few fixed sequences',['src/stun/stun_message.cpp','src/stun/stun_attribute_set.cpp'],[('parse_attrs loop','src/stun/stun_message.cpp'),('AttributeSet::emplace','src/stun/stun_attribute_set.cpp')],observe=['Message::parse','AttributeSet accessors'])
p('C12','Each known STUN attribute decodes to the value its bytes encode',
 'For each attribute the library knows, a value of the right size decodes to the address, port, string, number, error code, type list or flag that the RFC encoding defines, and a value too short, or for addresses, digests, flags and type lists of any size the RFC excludes, makes parsing fail with the error for that attribute.',
 I,'all attribute values up to the stated length for all known types','tests give one or two values per attribute',['src/stun/stun_attribute.cpp','src/stun/stun_address.cpp'],[('per-attribute parse functions','src/stun/stun_attribute.cpp')],observe=['Message::parse','AttributeSet accessors'])
p('C13','A STUN message with a wrong FINGERPRINT is never accepted',
 'A message carrying FINGERPRINT is accepted only if the value equals the CRC-32 of all bytes before that attribute XORed with 0x5354554e, and a message whose fingerprint is right is not rejected because of it. In particular no corruption of up to the stated number of bytes in a fingerprinted message goes unnoticed unless the CRC itself collides.',
 I,'all messages of the stated lengths, all fingerprint values','tests use two fixed messages',['src/stun/stun_message.cpp','src/stun/details/stun_fingerprint.cpp'],[('fingerprint check','Message::parse')],observe=['Message::parse'])
p('C14','The fingerprint checksum is the standard CRC-32',
 'For every byte sequence the checksum used by FINGERPRINT equals the CRC-32 of ITU-T V.42 (ISO-HDLC: reflected 0xEDB88320, initial and final inversion).',
 I,'all byte sequences up to the stated length, which includes every table step from every state','tests see only whole captured messages',['src/stun/details/stun_fingerprint.cpp'],[('table-driven crc32','stun_fingerprint.cpp')],observe=['details::crc32'])
p('C15','STUN parse statistics account for every message exactly once',
 'Each parse increments exactly one of the success and error counters, once, according to the result it returns. A rejected message also increments exactly one reason counter matching the returned error, and an accepted one increments none.',
 I,'all messages up to the stated length','tests check counters for some failures',['src/stun/stun_message.cpp','src/stun/stun_attribute.cpp','src/stun/stun_parse_stat.hpp'],[('stat.*.inc()','parse functions')],observe=['ParseStat counters'])
p('C16','What the STUN library builds it parses back unchanged',
 'Building any message from any set of supported attributes and parsing the bytes gives the same class, method, transaction id and the same value for each attribute and each unknown attribute.',
 I,'all attribute values (strings and lists up to stated lengths), singly and in stated combinations','tests build a few fixed messages',['src/stun/stun_attribute_set.cpp','src/stun/stun_attribute.cpp','src/stun/stun_message.cpp'],[('AttributeSet::build','src/stun/stun_attribute_set.cpp')],observe=['Message::build','Message::parse'])
p('C17','Every STUN message built is well formed on the wire',
 'A built message has a correct header, a length field equal to the bytes that follow, every attribute padded to 4 bytes with its unpadded length recorded, MESSAGE-INTEGRITY (when requested) after all other attributes except FINGERPRINT, and FINGERPRINT (when requested) last with the correct CRC. Each attribute appears exactly once and unknown attributes appear with their exact bytes.',
 I,'all attribute combinations and values up to stated lengths','tests compare a few messages with fixed bytes',['src/stun/stun_attribute_set.cpp'],[('AttributeSet::build','src/stun/stun_attribute_set.cpp')],observe=['Message::build'])
p('C18','Message integrity is computed over exactly the bytes the RFC names',
 'Validation of a received message, and signing of a built one, use HMAC over the message up to (excluding) the MESSAGE-INTEGRITY attribute with the length field adjusted to end right after it. Validation says valid exactly when the received 20-byte digest equals that HMAC, says "not signed" exactly when there is no MESSAGE-INTEGRITY, and reports hash failures as errors instead of as a verdict.',
 I,'all messages up to the stated length; the hash is an uninterpreted function that may also fail','tests use captured messages with real SHA-1',['src/stun/stun_message.cpp','src/stun/stun_attribute_set.cpp','src/stun/stun_integrity.hpp','src/stun/stun_password.cpp'],[('Message::is_valid','src/stun/stun_message.cpp')],observe=['Message::is_valid','Message::build'])
p('C19','HMAC follows RFC 2104 for every key and message length',
 'For every key, including keys longer than the 64-byte block, and every data split into pieces, the digest equals H((K ^ opad) || H((K ^ ipad) || data)) with K zero-padded, or hashed first when longer than the block. No dead or foreign memory is read and a failing hash makes the result an error.',
 I,'all keys up to the stated length, hash as an arbitrary function','tests use the RFC 2202 vectors',['src/crypto/crypto_hmac.hpp','src/stun/stun_password.cpp'],[('PadKey::from_key, digest','src/crypto/crypto_hmac.hpp')],observe=['PadKey','hmac::digest'])
p('C20','Hashing through OpenSSL digests all input in order and reports failures',
 'The digest is that of the concatenation of all given views in order, and whenever a step of the crypto library fails (context creation, init, any update, final) the result is an error carrying a failure code and never a digest. The context is released exactly once on every path.',
 ['inputs','fault_sequences'],'all inputs up to stated size, all failure points of the crypto library calls','the real library never fails in tests',['src/crypto/openssl/openssl_hash.cpp','src/crypto/openssl/openssl_error.cpp'],[('EVP call sequence','openssl_hash.cpp')],observe=['openssl::digest functions'])
p('C21','XOR-mapped addresses decode to the address that was encoded',
 'For every IPv4/IPv6 address, port and transaction id, encoding and decoding gives the same address, and the encoding is the address XORed with magic cookie and transaction id as the RFC defines. Decoding with another transaction id gives a different IPv6 address.',
 I,'all addresses, ports and transaction ids','tests use one vector per family',['src/stun/stun_address.cpp'],[('XoredAddress','src/stun/stun_address.cpp')],observe=['XoredAddress::from_address','to_address'])
p('C22','The STUN server grants only what the credentials in the request allow',
 'A request with exactly one of USERNAME and MESSAGE-INTEGRITY is answered 400; one whose user is unknown or whose digest does not verify under that user\'s password is answered 401, never a success; unknown comprehension-required attributes are answered 420 listing exactly them (when several of these apply, by any one of them, never a success). A hash failure gives an error result, and a success to a credentialed request is signed with the same credentials.',
 I,'all requests up to the stated length; the hash is uninterpreted and may fail','tests cover one request per branch',['src/stun/stun_server_stateless.cpp'],[('process_request','src/stun/stun_server_stateless.cpp')],observe=['Stateless::process'])
p('C23','STUN server responses answer the request they are for',
 'Only requests are answered: anything that does not parse, is not a request or has a method other than binding is ignored. A response has the request\'s method, transaction id and protocol flavour, reports the sender\'s address and port (XOR-MAPPED-ADDRESS, or MAPPED-ADDRESS for RFC 3489) if it is a success, which carries FINGERPRINT exactly when configured and not RFC 3489; its wire form is accepted by a STUN parser.',
 I,'all requests up to the stated length, all source endpoints, all settings','tests use one endpoint per family',['src/stun/stun_server_stateless.cpp','src/stun/stun_attribute_set.cpp'],[('process / process_request','src/stun/stun_server_stateless.cpp')],observe=['Stateless::process'])
p('C24','Every STUN client transaction ends exactly once',
 'Each started transaction yields exactly one terminal outcome (success or failure) in every history of responses, duplicates, retransmission timers and delays, and none is lost. After the terminal outcome nothing more is sent or reported for it, data to be sent always refers to live bytes of that transaction\'s request, and a client with nothing pending is idle.',
 ['histories','schedules'],'all interleavings of responses and timer steps of the stated length','tests drive a handful of linear histories',['src/stun/stun_client_udp.cpp'],[('m_effects queue, m_tid_timeline, cleanup','src/stun/stun_client_udp.cpp')],
 [('m_tmap','live transactions','stun_client_udp.hpp'),('m_effects','pending effects','stun_client_udp.hpp'),('m_tid_timeline','timers','stun_client_udp.hpp')],['ClientUDP::next'])
p('C25','The STUN client trusts only matching, authentic responses',
 'A message changes a transaction only if it is a binding response with that transaction\'s id and, when the transaction uses credentials, its MESSAGE-INTEGRITY verifies under them; the only unsigned response accepted is a 300 Try Alternate when configured. Everything else is reported as an error or ignored, and leaves every transaction pending and its timers unchanged.',
 I,'all response bytes up to the stated length, all settings; hash uninterpreted','tests use a few crafted responses',['src/stun/stun_client_udp.cpp'],[('find_transaction, check_response_auth','src/stun/stun_client_udp.cpp')],observe=['ClientUDP::response','ClientUDP::next'])
p('C26','STUN client outcomes report what the response says',
 'A success response yields the decoded mapped address (XOR form preferred), the response and, if nothing was retransmitted, the round-trip time; an error response yields the outcome RFC 5389 prescribes for its code (3xx alternate server or error code, 420 with the reported types, other 4xx code, 5xx retry or failure). Unknown comprehension-required attributes, or a missing address or ERROR-CODE, fail the transaction with that reason.',
 I,'all error codes, addresses, and attribute combinations of stated size','tests sample one response per kind',['src/stun/stun_client_udp.cpp'],[('handle_success_response, handle_error_response','src/stun/stun_client_udp.cpp')],observe=['ClientUDP::next'])
p('C27','STUN client retransmissions follow the RFC 5389 schedule',
 'With no response a request is sent exactly Rc times, at intervals starting at the RTO and doubling each time, the last wait is Rm times the RTO, none of these waits is above the configured maximum, and then the transaction fails with timeout. Requests are never sent before they are due, a sleep never extends past the next due time, and a 5xx answer postpones the next send by the configured delay at most the configured number of times.',
 ['configurations','schedules'],'all settings in stated ranges and all polling delays','tests check the default schedule',['src/stun/stun_client_udp.cpp'],[('RetransmitAlgo','src/stun/stun_client_udp.cpp')],observe=['ClientUDP::next'])
p('C28','The retransmission timeout follows RFC 6298 with Karn\'s rule',
 'For every sequence of measurements on a path the timeout is the configured initial value before any measurement, SRTT + 4*RTTVAR with the RFC 6298 recurrences after unambiguous measurements, and the last backed-off timeout after a retransmitted exchange until the next unambiguous measurement. Measurements on one path never change another path\'s timeout.',
 H,'all measurement sequences of the stated length and all values in the stated range','tests use no direct RTO checks beyond a few',['src/stun/details/stun_client_udp_rto.cpp'],[('new_rtt, backoff, rto','stun_client_udp_rto.cpp')],observe=['ClientUDPRtoCalculator::rto'])
p('C29','RTO history is kept for the configured time and then forgotten safely',
 'A path\'s history is used as long as its last update is not older than the history duration and is dropped at the first update on any path after that; recent paths are never dropped. No history of updates makes the calculator touch freed memory, leak entries from its timeline or loop forever.',
 H,'all sequences of updates on stated number of paths with arbitrary non-decreasing times','no test covers expiry',['src/stun/details/stun_client_udp_rto.cpp','src/util/util_intrusive_list.hpp'],[('clear_outdated, timeline','stun_client_udp_rto.cpp')],observe=['ClientUDPRtoCalculator::rto'])
p('C30','STUN client requests carry exactly what was asked for',
 'The bytes a client sends for a new transaction are a well-formed binding request with a fresh transaction id, the caller\'s attributes and unknown attributes, USERNAME and a verifying MESSAGE-INTEGRITY exactly when credentials are given, and FINGERPRINT exactly when configured. Retransmissions repeat the same bytes, and two pending transactions never share an id or a handle.',
 I,'all attributes and credentials up to stated lengths, all random outputs','tests build fixed requests',['src/stun/stun_client_udp.cpp','src/stun/stun_transaction_id.hpp'],[('create / do_create','src/stun/stun_client_udp.cpp')],observe=['ClientUDP::create','ClientUDP::next'])
p('C31','ICE candidate fields accept exactly their grammar and keep their value',
 'A foundation is accepted from text exactly when it is 1-32 ice-chars; a component id from a number in 1-256 and from text of one to three digits with a value of at most 256 (the text "0" is tolerated); a candidate priority from text of one to ten digits with a value of 1 to 2^32-1; type preferences 0-126, local preferences 0-65535; a UDP port from text of one to five digits with a value of at most 65535; the transport UDP and the four candidate types by name, ignoring case, unknown names being kept or reported as unsupported. Nothing else is accepted, and an accepted field reports exactly the value or text given.',
 I,'all strings up to the stated length, all numbers','tests sample valid and invalid strings',['src/ice/candidate','src/net/net_port.cpp','src/ice/ice_abnf.hpp','src/abnf/abnf.hpp'],[('from_string / from_unsigned','src/ice/candidate/*.cpp')],observe=['Foundation','ComponentId','Priority','Port','Type','TransportType'])
p('C32','ICE candidate attributes parse to the candidate they describe',
 'A candidate attribute line is accepted exactly when it has the RFC 8839 fields in order, separated by single spaces, and each field alone is acceptable; each field of the result is the corresponding token, related address and port (the last given counts) and extension pairs are found in any order, and lines whose only fault is an unsupported address, type or transport are reported as unsupported. One space at the end of the line is tolerated. No input makes the parser read outside the line or abort.',
 I,'all lines up to the stated length, and all lines from templates with arbitrary tokens','tests parse a few lines',['src/ice/candidate/ice_candidate_sdp.cpp','src/util/util_token_stream.hpp','src/util/util_string_view.hpp'],[('parse_sdp_attr','ice_candidate_sdp.cpp')],observe=['parse_sdp_attr'])
p('C33','ICE candidate priorities follow the RFC 8445 formula',
 'The computed priority is 2^24*type + 2^8*local + (256 - component) for all valid preferences and component ids 1-256, without overflow and within 1..2^31-1 or a reported error, so that a better type preference always outranks local preference, and local preference outranks component.',
 I,'all type preferences, local preferences and component ids','tests check two values',['src/ice/candidate/ice_candidate_priority.cpp','src/ice/candidate/ice_candidate_preference.cpp'],[('Priority calculation','ice_candidate_priority.cpp')],observe=['Priority'])
p('C34','Domain names are recognised by the RFC 1035 label grammar',
 'A string is accepted as a name exactly when it is a sequence of dot-separated labels of letters, digits, underscores and inner hyphens that neither start nor end with a hyphen, optionally followed by one final dot; prefix parsing consumes the longest such prefix and reports the exact rest.',
 I,'all strings up to the stated length','tests use a list of names',['src/net/net_fqdn.cpp'],[('parse_label, parse_subdomain','src/net/net_fqdn.cpp')],observe=['Fqdn::parse','Fqdn::from_string'])
p('C35','IP address text and bytes convert faithfully both ways',
 'Text is accepted as an address exactly when the whole text is a valid IPv4 or IPv6 address for the platform, and gives that address\'s bytes; byte views are accepted exactly when they have 4 or 16 bytes. Addresses compare equal exactly when family and bytes are equal, and candidate addresses fall back to names only when the text is not an address.',
 I,'all texts up to the stated length, all byte views','tests use a few addresses',['src/net/ip/ip_address.cpp','src/net/ip/details/ip_address_tpl.hpp','src/ice/candidate/ice_candidate_address.cpp'],[('inet_pton adapter, from_view','src/net/ip')],observe=['Address::from_string','AddressV4::from_view','Address::to_string'])
p('C36','The intrusive list always holds exactly the elements linked into it, in order',
 'Under every sequence of pushes, pops, removals, move construction and assignment of lists and of elements, and destructions, front, back, emptiness and traversal order equal those of an abstract sequence in which an element occurs at most once and unlinks itself when destroyed. No operation leaves a dangling link.',
 H,'all operation sequences of the stated length over the stated number of elements and lists','tests run a few sequences',['src/util/util_intrusive_list.hpp'],[('Link, do_move','src/util/util_intrusive_list.hpp')],observe=['front','back','empty','in_list'])
p('C37','Splitting text and token streams lose nothing and read nothing else',
 'Splitting at a separator partitions the text (joined parts give the text back up to one separator at its end, no part contains the separator), removing a prefix yields the exact rest or nothing, and a token stream delivers exactly the given tokens in order, then reports their absence; a copied stream goes on independently. All parts are views into the given text.',
 I,'all texts up to the stated length and separators','tests use a few strings',['src/util/util_string_view.hpp','src/util/util_token_stream.hpp','src/util/util_token_stream.cpp','src/util/util_flat.hpp'],[('split, split_all, TokenStream','src/util')],observe=['split','split_all','TokenStream'])
p('C38','Hashing agrees with equality and with its published algorithm',
 'The byte hash equals the 64-bit MurmurHash2 of the bytes and seed for every length and alignment; equal addresses, endpoints\' paths, transaction ids, handles and opaque strings hash equally; a hash chosen at run time is the one applied. No hash reads outside its input.',
 I,'all inputs up to the stated length, all seeds','no test covers the hash values',['src/util/util_hash_murmur.cpp','src/net/net_path_hash.hpp','src/net/ip/ip_address_hash.cpp','src/stun/stun_transaction_id_hash.hpp','src/util/util_hash_dynamic.hpp'],[('murmur','util_hash_murmur.cpp')],observe=['murmur','AddressHash','PathHash','dynamic::Hash'])
p('C39','Every error code keeps its identity and has its own message',
 'For each module, an error code made from an error value carries that value and that module\'s category, is falsy exactly for "ok", compares equal only to itself, and has a non-empty message distinct from the other values of the module; different modules\' codes never compare equal. Any other integer still yields some text and no undefined behaviour.',
 I,'all 32-bit codes of every category','no test reads the messages',['src/rtp/rtp_error.cpp','src/net/net_error.cpp','src/stun/stun_error.cpp','src/ice/candidate/ice_candidate_error.cpp','src/crypto/openssl/openssl_error.cpp','node/node_stun/node_stun_error.cpp','node/openssl/node_openssl_error.cpp'],[('error categories','the listed files')],observe=['make_error_code','std::error_code::message'])
p('C40','Attribute types are classified and named by the STUN registries',
 'An attribute type requires comprehension exactly when its code is below 0x8000, keeps its 16-bit value and compares by it; the registry and protocol constants are the values assigned by RFC 5389/8445 and IANA, and are pairwise distinct.',
 I,'all 2^16 types','constants are tested against themselves only',['src/stun/stun_attribute_type.hpp','src/stun/details/stun_attr_registry.hpp','src/stun/details/stun_constants.hpp','src/stun/details/stun_method_registry.hpp'],[('AttributeType, constants','the listed headers')],observe=['AttributeType'])
p('C41','Character classes and case-insensitive comparison match their ABNF',
 'Each character class contains exactly the characters its RFC 5234 / RFC 8839 definition lists, for all 256 byte values, and the case-insensitive comparison is true exactly for strings of equal length whose ASCII letters match ignoring case.',
 I,'all byte values, all string pairs up to the stated length','no direct tests',['src/abnf/abnf.hpp','src/ice/ice_abnf.hpp'],[('is_* predicates, eq_string','src/abnf/abnf.hpp')],observe=['abnf predicates'])
p('C42','Transaction ids use all 96 random bits and compare by content',
 'A generated transaction id has 96 bits of which every bit is taken from the random source, distinct source outputs give distinct ids, and ids compare and hash by their bytes, with RFC 3489 ids keeping all 128 bits.',
 I,'all random outputs','tests use one generator',['src/stun/stun_transaction_id.hpp','src/stun/stun_transaction_id_hash.hpp'],[('TransactionId::generate','stun_transaction_id.hpp')],observe=['TransactionId'])
p('C43','Attribute sets return exactly the attributes put into them',
 'For every sequence of insertions each typed accessor returns the first inserted attribute of its kind and nothing if there is none, and the list of unknown comprehension-required types is exactly the inserted unknown types below 0x8000. An alternate-server response is recognised exactly when it is an error response with code 300.',
 H,'all insertion sequences of the stated length','tests use parsed messages',['src/stun/stun_attribute_set.cpp','src/stun/stun_attribute_set.hpp','src/stun/stun_message.hpp'],[('AttributeSet','src/stun/stun_attribute_set.cpp')],observe=['AttributeSet accessors','Message::is_alternate_server'])
p('C44','JavaScript bindings convert messages and settings faithfully',
 'The Node.js bindings show JavaScript each STUN message (class, method, transaction id, protocol flavour, and the attributes they list, first occurrences), each ICE candidate and each client effect with exactly the values the native library has for them, and pass users, passwords, requests, addresses, ports and settings to it unchanged, so that a server or client driven from JavaScript answers with the same bytes and the same effects as the native one; arguments of the wrong kind, missing ones, unparsable buffers and texts, and numbers that are not ports are reported as errors, start nothing and never crash the process.',
 I,'all messages, all JavaScript values','no tests exist for the bindings',['node/node_stun','node/node_ice','node/openssl'],[('message conversion','node/node_stun/node_stun_message.cpp'),('server binding','node/node_stun/node_stun_server_stateless.cpp'),('client binding','node/node_stun/node_stun_client_udp.cpp'),('effects','node/node_stun/node_stun_client_udp_effects.cpp'),('candidates','node/node_ice/node_ice_candidate.cpp')],observe=['node addon objects'])
p('C45','Small value wrappers and counters behave as plain values',
 'Tagged values, typed booleans, counters, opaque strings, passwords, digests, ports, endpoints and paths return what was stored, compare by content, copy and move without change, and counters increase by exactly one per increment.',
 I,'all values','tests use a few values',['src/util/util_tagged_type.hpp','src/util/util_typed_bool.hpp','src/stat/stat_counter.hpp','src/precis/precis_opaque_string.hpp','src/net/net_endpoint.hpp','src/net/net_path.hpp','src/net/net_port.hpp'],[('wrappers','the listed headers')],observe=['value(), operator=='])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
