#![allow(dead_code)]
mod cx;
mod gen;
mod link;
mod refcodec;
mod runner;
mod seam;
mod store;
mod tree;
mod util;
mod words;
mod world;

use runner::Prop;

static PROPS: &[Prop] = &[Prop {
    id: "C17",
    run: store::c17,
    quick: 400_000,
    rule: "A session store on a failing disk: records appended, synced, rewritten, reloaded after crashes, sent again.",
    real: "library: serde support (Serialize, Deserialize of all packet types), MqttPacket::encode, PacketDecoder; serde_json, bincode",
    stub: "the disk (in memory: short writes, write errors, lost and torn unsynced writes), node crashes, hash seeds; the store itself is the harness",
    measure: "hash over the sequence of record positions, sizes, injected faults and results of a run",
}];

fn main() {
    runner::main(PROPS)
}
