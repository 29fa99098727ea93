# Generates properties.jsonl (kept as a script so that the 24 entries stay uniform).
import json
D='netcode/detail/decoder.cc'; DH='netcode/decoder.hh'; E='netcode/encoder.hh'; EC='netcode/detail/encoder.cc'
P='netcode/detail/packetizer.hh'; G='netcode/detail/galois_field.hh'; I='netcode/detail/invert_matrix.cc'
SL='netcode/detail/source_list.hh'; PK='netcode/packet.hh'
def m(*a): return [dict(name=n, where=w) for n,w in a]
L=[]
def prop(id,title,st,over,text,why,files,mech,obs,state=None):
    a=dict(files=files,mechanism=mech,observe_at=obs,hook_needed=None)
    if state: a['state']=[dict(name=n,meaning=me,where=w) for n,me,w in state]
    L.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

prop('C01','Delivered data is byte-for-byte what the sender submitted',
 "Every block of data the receiver hands to its application has exactly the length and the bytes of one block the sending application submitted, whether its packet arrived directly or it was rebuilt from repairs. This holds for every field size (4, 8, 16, 32), every mix of block sizes, both code modes, both ordering modes, and whatever loss, duplication, delay and reordering the packets and acknowledgements suffered.",
 ['histories','inputs','configurations','fault_sequences'],'all channel histories x block contents/sizes x field sizes x modes x rate/window/ack settings',
 'Tests decode a few fixed small examples; which repairs meet which missing blocks, in which order and with which sizes, is unbounded.',
 [D,EC,G,I,P],m(('peeling and full decoding','netcode/detail/decoder.cc: add/attempt_full_decoding'),('region arithmetic','netcode/detail/galois_field.hh'),('repair construction','netcode/detail/encoder.cc')),['data handler of the receiver','submitted blocks'],
 [('held repairs','each held repair equals the combination of its still-unknown blocks','detail::decoder')])
prop('C02','Each block is delivered at most once',
 "The receiver hands each submitted block to its application at most once, however packets are duplicated, delayed or reordered, and even if a block is both received directly and derivable from repairs that arrive before or after it.",
 ['histories','fault_sequences','configurations'],'all packet arrival sequences obtainable from a sender by loss, duplication, delay and reordering',
 'Tests duplicate one or two packets; double delivery needs a late packet to cross a particular receiver state.',
 [D,DH],m(('horizon and known set','netcode/detail/decoder.cc: operator()(source/repair), drop_outdated')),['data handler of the receiver'],
 [('horizon','oldest block number the sender is known to protect; never moves backwards','detail::decoder::m_last_id')])
prop('C03','In-order mode delivers in submission order, skipping only abandoned blocks',
 "With in-order delivery, blocks reach the application in strictly increasing submission order. A block is passed over only after a received repair has shown that the sender no longer protects it (its oldest covered block is newer), and blocks already held are delivered, in order, before that point is passed.",
 ['histories','fault_sequences','configurations'],'all arrival sequences in in-order mode, with and without limited sender windows',
 'Tests walk a few gap patterns; the order depends on every interleaving of direct arrivals, rebuilds and abandonment.',
 [D],m(('ordered buffer','netcode/detail/decoder.cc: flush_ordered_sources, drop_outdated')),['data handler of the receiver'],
 [('next block','first block not yet given in order','detail::decoder::m_first_missing_source_in_order')])
prop('C04','Received data is never withheld from the application',
 "A block whose own packet arrives intact, and which was neither delivered before nor older than what the sender is known to protect, is handed to the application within that same call. In in-order mode it is handed over, at the latest, within the call in which the last earlier block is delivered or abandoned.",
 ['histories','fault_sequences','configurations'],'all arrival sequences, both ordering modes',
 'Tests assert delivery in selected scenarios; a lost wake-up of the ordered buffer needs a particular crossing of rebuilt and received blocks.',
 [D,DH],m(('source intake','netcode/detail/decoder.cc: operator()(decoder_source&&)'),('ordered flush','netcode/detail/decoder.cc: flush_ordered_sources')),['data handler of the receiver'])
prop('C05','Lost data is rebuilt as soon as enough repairs are held',
 "After every received packet, the receiver has rebuilt every lost block that follows by substitution from a held repair with a single unknown block, and all missing blocks as soon as the repairs it received are as many, linearly independent, as the blocks they are missing. A repair it has accepted is never thrown away while it still adds information; only repairs covering a block older than what the sender is known to protect may be ignored.",
 ['histories','inputs','fault_sequences','configurations'],'all arrival sequences and all coefficient combinations, including linearly dependent ones',
 'Tests use two or three missing blocks and coefficients that happen to be independent; dependent rows and chains of substitutions are not reached.',
 [D,I,G],m(('substitution and full decoding','netcode/detail/decoder.cc'),('matrix inversion','netcode/detail/invert_matrix.cc')),['data handler of the receiver','number of missing blocks'])
prop('C06','Acknowledgements list exactly what the receiver holds',
 "Every acknowledgement names only blocks the receiver has really received or rebuilt, and names all of those it held when the call began that are not older than what the sender is known to protect. Its packet counter equals the number of source and repair packets received since the previous acknowledgement (65535, all its field can hold, if there were more).",
 ['histories','fault_sequences','configurations'],'all histories of arrivals and of forced or automatic acknowledgements',
 'Tests inspect a handful of acks of short streams; a false ack makes the sender drop unrecovered data and only shows under later loss.',
 [DH,D,P,'netcode/detail/ack.hh'],m(('ack building','netcode/decoder.hh: generate_ack'),('id list encoding','netcode/detail/packetizer.hh')),['packet handler of the receiver'])
prop('C07','The sender protects exactly the unacknowledged blocks within its window',
 "After any sequence of submissions, acknowledgements (stale, duplicated, reordered or naming unknown blocks) and setting changes, the blocks retained by the sender are exactly the submitted ones that were not acknowledged and not displaced, oldest first, by the window limit. Each submission leaves at most the current limit of blocks retained, also when the limit was lowered in between.",
 ['histories','configurations','fault_sequences'],'all interleavings of submissions, acks and window changes',
 'Tests check the count after a few acks with a constant window.',
 [E,SL],m(('eviction','netcode/encoder.hh: commit_impl'),('ack processing','netcode/detail/source_list.hh: erase')),['window()','block lists in emitted repairs'])
prop('C08','Every emitted packet is a faithful encoding an independent peer can use',
 "Each source packet carries the submitted block verbatim with consecutive numbers, and each repair, under a fresh number, lists exactly the blocks retained at that moment and carries, for the data and for the lengths, the published linear combination of them over the chosen field, shorter blocks counting as zero-padded. An independent implementation of the wire format and field can therefore recompute and use every packet.",
 ['inputs','histories','configurations'],'all block sizes/contents, windows with holes, field sizes, repair numbers',
 'Tests compare one or two encodings, mostly of equal-size blocks.',
 [EC,E,P,G],m(('repair construction','netcode/detail/encoder.cc'),('coefficients','netcode/detail/galois_field.hh: coefficient'),('serialization','netcode/detail/packetizer.hh')),['packet handler of the sender'])
prop('C09','Packets are emitted exactly on schedule',
 "Each submission emits exactly one packet (the source in systematic mode, a repair otherwise), plus one repair after every rate-th submission counted from the start of the stream, and each forced generation emits exactly one repair when data is retained and nothing otherwise. In adaptive mode an acknowledgement sets the rate from the loss since the previous one (50 below 1 % loss, else half the inverse of the loss rate rounded up) and it always stays between 1 and 50; a fixed rate never changes by itself.",
 ['histories','configurations','inputs'],'all interleavings of submissions, forced repairs, acks and rate/mode/adaptive changes',
 'Tests look at constant settings over a few submissions.',
 [E],m(('emission','netcode/encoder.hh: commit_impl, generate_repair'),('adaptation','netcode/encoder.hh: notify_impl, rate_for_loss')),['packet handler of the sender','rate()'])
prop('C10','Arbitrary bytes from the network never break memory safety',
 "For any sequence of non-empty byte strings given to a sender or a receiver as packets, mixed with legitimate traffic, each call returns or throws one of the library's documented errors. It never reads or writes outside its buffers, never uses uninitialised or freed memory, never invokes undefined behaviour and never aborts the process.",
 ['inputs','histories','configurations'],'all byte strings as packets, interleaved with honest traffic, all fields and modes',
 'Tests feed a few truncated packets; sizes, id lists and repeated hostile repairs interact through receiver state.',
 [P,D,G,I,DH,E],m(('bounds checks','netcode/detail/packetizer.hh: read*'),('clamping','netcode/detail/decoder.cc')),['sanitizer reports','checked region operations'])
prop('C11','Rejected packets are reported with the right error and leave no trace',
 "A packet with an unknown type, or of a kind the addressed side does not process, is refused with the packet-type error, and a packet shorter than its own header says with the overflow error. After a refusal the sender or receiver behaves, for all later traffic, as if the packet had never been given (apart from received-packet counters), and combined dispatching hands acknowledgements to the sender and everything else to the receiver.",
 ['inputs','histories'],'all truncation points and types of packets, at any point of a history',
 'Tests truncate single packets on a fresh object and never compare the later behaviour.',
 [P,'netcode/detail/packet_type.hh','netcode/dispatch.hh',DH,E],m(('parsing before state change','netcode/decoder.hh, netcode/encoder.hh: operator()'),('type check','netcode/detail/packet_type.hh')),['exceptions','later deliveries, acks and emissions compared with a control run'])
prop('C12','Wire format round-trips without loss',
 "Reading back any emitted acknowledgement, repair or source packet yields exactly the fields that were written, including block lists with arbitrary gaps and long runs, and reports as consumed exactly the bytes of the packet even when extra bytes follow. A packet or block passed by reference stays the caller's, unaltered. Each packet is announced to the application as contiguous byte chunks closed by exactly one end-of-packet call.",
 ['inputs','histories'],'all field values, id lists (gaps, runs, sizes), symbol sizes and trailing bytes',
 'Tests use short lists with small gaps.',
 [P],m(('id list run-length coding','netcode/detail/packetizer.hh: write/read_ids'),('header layout','netcode/detail/packetizer.hh')),['packet handler','parsed fields','returned byte counts'])
prop('C13','The C interface behaves exactly like the C++ interface',
 "Driven with the same calls, the C interface emits the same packets, delivers the same data, returns the same counts and applies the same settings as the C++ interface. Every failure is reported as the matching error code without throwing or terminating, a success always reports no error, and an error message, when present, is a valid string owned by the caller.",
 ['programs','inputs','histories'],'all call sequences on the C interface, including malformed packets',
 'Tests call each C function once or twice in success cases.',
 ['netcode/c/encoder.cc','netcode/c/decoder.cc','netcode/c/packet.cc','netcode/c/data.cc','netcode/c/detail/check_error.hh','netcode/c/detail/handlers.hh'],m(('wrapping','netcode/c/*.cc'),('error translation','netcode/c/detail/check_error.hh')),['callbacks','return values','error structures'])
prop('C14','Running out of memory is reported, never fatal',
 "Whichever allocation fails inside a C interface call, the call returns normally: creation returns a null pointer and other calls that fail report the out-of-memory error. Nothing is leaked, no packet is left half written to the handler, every object can still be used and destroyed safely, and data delivered afterwards is still uncorrupted.",
 ['fault_sequences','histories','programs'],'every allocation of every call in a set of call histories, as a fault point',
 'No test makes an allocation fail.',
 ['netcode/c/encoder.cc','netcode/c/decoder.cc','netcode/c/packet.cc','netcode/c/data.cc','netcode/c/detail/check_error.hh',D],m(('error translation','netcode/c/detail/check_error.hh'),('exception neutrality of the core','netcode/detail/decoder.cc')),['process status','leak reports','error codes'])
prop('C15','Distinct senders and receivers can run on different threads',
 "Senders and receivers that are distinct objects share no mutable state: used concurrently from different threads without locking, they are free of data races and each produces exactly the packets and deliveries it produces when run alone.",
 ['schedules','histories','configurations'],'all interleavings of threads each driving its own objects',
 'The threaded end-to-end test runs one flow and compares nothing under a race detector.',
 [E,DH,P,G,D],m(('no shared state','per-object buffers in packetizer, encoder, decoder, galois_field')),['ThreadSanitizer reports','per-thread transcripts'])
prop('C16','Automatic acknowledgements follow the configured count and period',
 "When it delivers data, the receiver sends an acknowledgement exactly when the packets received since the last one reach the configured number (at most 128), or when the configured period has elapsed since the last automatic one; a zero period disables the time condition. It sends none at any other moment except on request.",
 ['histories','schedules','configurations'],'all arrival sequences, clock advances and setting changes',
 'Tests sleep once or twice with fixed settings.',
 [DH],m(('ack decision','netcode/decoder.hh: maybe_ack')),['packet handler of the receiver','virtual steady clock'])
prop('C17','Statistics account for every packet',
 "All counters agree with the observed traffic after every call: sources, repairs and acknowledgements sent and received, blocks rebuilt from repairs, blocks currently missing and repairs dropped because all their blocks were already held. A decoding is counted as failed only when the repairs held were linearly dependent. Deliveries not caused by a direct arrival are exactly the blocks counted as rebuilt.",
 ['histories','configurations'],'all honest histories, both sides, all settings',
 'Tests compare counters in short scenarios.',
 [E,DH,D],m(('counters','netcode/encoder.hh, netcode/decoder.hh, netcode/detail/decoder.cc')),['statistics accessors','observed traffic'])
prop('C18','Recorded packets replay exactly',
 "A receiver built with packet dumping records every packet it is given (up to the 65507 bytes a datagram can carry), and reading the recording back yields the same packets, byte for byte, in the same number and order, for any packet contents. Replaying the recording into a fresh receiver reproduces the same deliveries, and the replay tool processes every recorded packet, including the last, up to the first one a receiver refuses.",
 ['inputs','histories'],'all sequences of packets with arbitrary contents and sizes',
 'One test round-trips a few packets and fails on this platform.',
 ['netcode/detail/serialize_packet.hh','netcode/decoder.hh','tools/replay.cc'],m(('recording','netcode/detail/serialize_packet.hh'),('replay loop','tools/replay.cc')),['dump file','replayed deliveries','replay tool diagnostics'])
prop('C19','Packet buffers act like byte vectors and delivered data is aligned',
 "A packet buffer behaves like a sequence of bytes under any sequence of construction, copy, move, assignment, append, resize, reserve, shrink and clear. The data given to the application by the receiver starts on a 16-byte boundary for every block, received or rebuilt.",
 ['programs','inputs','histories'],'all operation sequences on packets; all deliveries',
 'Tests call each operation on a few small packets.',
 [PK,'netcode/detail/buffer.hh','netcode/detail/symbol_alignment.hh',D],m(('shifted buffer','netcode/packet.hh'),('aligned allocation','netcode/detail/buffer.hh')),['packet contents vs a vector','addresses passed to the data handler'])
prop('C20','Memory stays bounded on endless streams',
 "On a stream of any length, a sender's memory depends only on the blocks it currently retains, and a receiver's only on the blocks and repairs not older than what the sender protects. With a limited window or flowing acknowledgements, neither grows with the number of packets processed, and destroying the objects releases everything.",
 ['histories','configurations','fault_sequences'],'arbitrarily long streams with loss, reordering and duplication',
 'Tests are short and never look at memory.',
 [E,D,SL,'netcode/detail/packetizer.hh'],m(('eviction and acks','netcode/encoder.hh'),('dropping outdated state','netcode/detail/decoder.cc: drop_outdated')),['live heap bytes sampled along long streams'])
prop('C21','The network tools forward exactly what they should',
 "The lossy proxy, given a loss file, forwards exactly the datagrams not marked as lost, unmodified and in order, in both directions, and everything after the file ends; in its random modes what it forwards is an unmodified, ordered part of what it received, and the share lost is the configured one. Answers go back to the latest client. The source forwarder emits exactly the application data of each source packet it receives and nothing for any other or malformed datagram, and keeps running.",
 ['inputs','histories'],'all sequences of datagrams and all loss files',
 'No test runs the tools.',
 ['tools/lossy_proxy.cc','tools/loss/stream.hh','tools/source_forwarder.cc'],m(('forwarding loop','tools/lossy_proxy.cc: listen'),('loss file','tools/loss/stream.hh'),('source extraction','tools/source_forwarder.cc')),['loopback UDP sockets'])
prop('C22','Field arithmetic and matrix inversion are exact',
 "For every field size, products, inverses and scaled additions of byte regions obey the field with its standard polynomial, and coefficients are never zero. Inverting a square matrix succeeds exactly when it is invertible and gives its true inverse; on failure it designates a column that is a linear combination of the others.",
 ['inputs','configurations'],'all operands, region lengths/alignments and matrices',
 'Tests check a few hand-made values.',
 [G,I,'netcode/detail/square_matrix.hh'],m(('field operations','netcode/detail/galois_field.hh'),('elimination','netcode/detail/invert_matrix.cc')),['results vs an independent bitwise field'])
prop('C23','Output depends only on the input',
 "Two runs given the same calls, packets and clock emit identical packets and deliver identical data, whatever happened to be in memory before. No byte of stale or uninitialised memory ever reaches the network or the application.",
 ['histories','inputs','configurations'],'all honest histories under different initial heap contents',
 'Tests run once with whatever the heap holds.',
 [PK,'netcode/detail/buffer.hh',D,EC,'netcode/detail/square_matrix.hh'],m(('zeroing of padded buffers','netcode/detail/encoder.cc, netcode/detail/decoder.cc')),['packet and data handlers under different heap fill patterns'])
prop('C24','The stream heals: after losses stop, everything protected is delivered',
 "Starting from any state reached under loss, delay and reordering, once packets and acknowledgements flow again every block the sender still retains is delivered after finitely many further repairs: at the latest when those received are as many, independent, as the blocks missing. One acknowledgement received after that empties the sender's window.",
 ['histories','fault_sequences','configurations'],'all states reachable under channel faults, then a fault-free suffix',
 'The end-to-end tests run one loss pattern with fixed settings.',
 [E,D,DH,SL],m(('retention until ack','netcode/encoder.hh'),('decoding','netcode/detail/decoder.cc'),('acks','netcode/decoder.hh')),['deliveries','window()'])
with open('/verif/properties.jsonl','w') as f:
    for x in L: f.write(json.dumps(x)+'\n')
import re
for x in L:
    assert len(x['title'])<=80,x['id']
    n=len(re.findall(r'[.](\s|$)',x['statement'])); 
    assert n<=3,(x['id'],n)
print(len(L))
