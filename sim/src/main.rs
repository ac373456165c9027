mod basic;
mod cx;
mod gen;
mod keep;
mod link;
mod multi;
mod qos;
mod reader;
mod refcodec;
mod runner;
mod seam;
mod tree;
mod util;
mod words;
mod world;
mod work;
mod writer;

use runner::Prop;

const REAL: &str = "library: MqttPacket::encode / Packet::encode, PacketDecoder, ByteReader, MqttWriter; std BufReader";
const STUB: &str = "the connection (std::io::Read), clock, allocator accounting, hash seeds";
const MEASURE: &str = "hash over the sequence of reads (sizes and positions), injected faults, thread switches and decoder results of a run";

static PROPS: &[Prop] = &[
    Prop { id: "C01", run: basic::c01, quick: 300_000, rule: "Random histories of valid packets of one version, encoded by the library, delivered over a random schedule.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C02", run: basic::c02, quick: 900_000, rule: "Valid, damaged, noisy or cut streams, decoded once delivered at once and once under a random schedule.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C03", run: basic::c03, quick: 900_000, rule: "Histories of packets, in a third of the runs also malformed ones, with up to three transport failures at biased offsets, the stream possibly going on afterwards.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C04", run: basic::c04, quick: 500_000, rule: "Proper and damaged frames mixed, each with a readable length.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C05", run: basic::c05, quick: 800_000, rule: "A peer that sends packet i+1 only after the result of packet i.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C06", run: basic::c06, quick: 1_200_000, rule: "Arbitrary bytes, version arguments and transport failures; calls go on after the end.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C07", run: basic::c07, quick: 900_000, rule: "Hostile length claims after ordinary traffic, then the peer stops.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C08", run: basic::c08, quick: 300_000, rule: "Unusual and invalid packet values between valid ones.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C10", run: basic::c10, quick: 500_000, rule: "An independent sender using every freedom of the standard.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C11", run: basic::c11, quick: 600_000, rule: "An independent strict receiver of everything the library sends.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C12", run: basic::c12, quick: 700_000, rule: "Protocol violations of all listed kinds injected into an independent sender's session.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C13", run: basic::c13, quick: 250_000, rule: "Chains of up to five relays fed by this library, independent and faulty senders.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C09", run: multi::c09, quick: 200_000, rule: "Two to four connections on one to four simulated threads, switching at reads, at allocations, between any two blocks of the library's code, before its accesses to static memory and where it waits for locks, compared with each connection alone.", real: REAL, stub: "the connection (std::io::Read), clock, allocator accounting, hash seeds, the kernel's side of locks (futex), thread scheduling", measure: MEASURE },
    Prop { id: "C15", run: multi::c15, quick: 100_000, rule: "A broker with two to four clients of mixed versions, reconnects under other versions, PUBLISH bridged to all.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C14", run: qos::c14, quick: 200_000, rule: "A client and a broker exchanging QoS 0, 1 and 2 messages in both directions over connections that are cut anywhere, with crashes of both.", real: REAL, stub: "the network (pipes with delays, cuts), clock, node crashes; the session logic of client and broker is the harness", measure: MEASURE },
    Prop { id: "C16", run: reader::c16, quick: 3_000_000, rule: "Random sequences of limit, read, discard, reset and has-more operations against a flat model.", real: "library: ByteReader; std BufReader", stub: STUB, measure: MEASURE },
    Prop { id: "C21", run: writer::c21, quick: 200_000, rule: "Random sequences of values and blocks of properties written with the byte writer, sent over a connection and read with the byte reader, in regions or not, the connection possibly cut.", real: "library: MqttWriter, ByteReader, FixedHeader, PropType; std BufReader", stub: STUB, measure: MEASURE },
    Prop { id: "C22", run: work::c22, quick: 200_000, rule: "Streams of all kinds, some of them long and made of as many tiny elements as possible, decoded over a random schedule and encoded again, the library's requests for heap and its reads counted.", real: REAL, stub: STUB, measure: MEASURE },
    Prop { id: "C23", run: keep::c23, quick: 60_000, rule: "Connections that last for thousands of packets, hundreds of connections after each other and thousands of packets sent, valid, damaged and refused ones, with failures and cuts; the balance of all heap the library has taken and given back.", real: REAL, stub: STUB, measure: MEASURE },
];

fn main() {
    runner::main(PROPS)
}
