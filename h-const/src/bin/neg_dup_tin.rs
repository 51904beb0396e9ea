//! A topic with the key of a request: must be refused.
use postcard_rpc::header::VarHeader;
use postcard_rpc::server::impls::test_channels::dispatch_impl::*;
use postcard_rpc::server::impls::test_channels::ChannelWireSpawn;
use postcard_rpc::server::{Dispatch, Sender, SpawnContext};
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};

pub struct Ctx;
impl SpawnContext for Ctx {
    type SpawnCtxt = ();
    fn spawn_ctxt(&mut self) {}
}
fn ep(_c: &mut Ctx, _h: VarHeader, v: u8) -> u16 {
    v as u16
}
fn tin(_c: &mut Ctx, _h: VarHeader, _v: u32, _o: &Sender<WireTxImpl>) {}
endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | E1 | u8 | u16 | "neg/a" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | T1 | u32 | "neg/t" |
    | T2 | u8 | "neg/a" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | O1 | u64 | "neg/o" |
}
define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
        | E1 | blocking | ep |
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
        | T1 | blocking | tin |
    };
    topics_out: {
        list: TOUT;
    };
}
fn main() {
    let a = App::new(Ctx, ChannelWireSpawn);
    println!("{:?} {}", a.min_key_len(), a.device_map.types.len());
}
