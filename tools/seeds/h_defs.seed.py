
DEFS=r"""
use postcard_rpc::header::VarHeader;
use postcard_rpc::server::impls::test_channels::dispatch_impl::*;
use postcard_rpc::server::impls::test_channels::ChannelWireSpawn;
use postcard_rpc::server::{Dispatch, Sender, SpawnContext};
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};
pub struct Ctx;
impl SpawnContext for Ctx {
    type SpawnCtxt = ();
    fn spawn_ctxt(&mut self) {}
}
fn ep(_c: &mut Ctx, _h: VarHeader, v: u8) -> u16 {
    v as u16
}
fn tp(_c: &mut Ctx, _h: VarHeader, _v: u32, _o: &Sender<WireTxImpl>) {}
endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | E1 | u8 | u16 | "d/1" |
    | E2 | u8 | u16 | "d/2" |
    | E3 | u8 | u16 | "d/3" |
@EP@
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | T1 | u32 | "d/t1" |
    | T2 | u32 | "d/t2" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | O1 | u32 | "d/o1" |
    | O2 | u32 | "d/o2" |
}
define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
@EH@
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
@TH@
    };
    topics_out: {
        list: TOUT;
    };
}
"""
def defs(ep='',eh='        | E1 | blocking | ep |',th='        | T1 | blocking | tp |'):
    return DEFS.replace('@EP@',ep).replace('@EH@',eh).replace('@TH@',th)
GO='pub fn go() { let a = App::new(Ctx, ChannelWireSpawn); println!("{:?}", a.min_key_len()); }\n'
def both(good,bad):
    return 'mod good {\n'+good+GO+'}\n#[cfg(feature = "bad")]\nmod bad {\n'+bad+GO+'}\nfn main() {\n    good::go();\n    #[cfg(feature = "bad")]\n    bad::go();\n}\n'

seed('c25-handlers-in-list-order','C25','server/dispatch_macro.rs',[
("""                let mut i = 0;
                while i < a.len() {
                    let x = u64::from_le_bytes(a[i].to_bytes());
                    let mut matched = false;
                    let mut j = 0;
                    while j < b.len() {""","""                let mut i = 0;
                // entries before the last match need not be looked at again
                let mut j = 0;
                while i < a.len() {
                    let x = u64::from_le_bytes(a[i].to_bytes());
                    let mut matched = false;
                    while j < b.len() {"""),
],'a dispatcher whose handlers are given in another order than the entries of its list',
'a consistent definition is refused: handlers are only found if they come in the order of the list',
'mod good {\n'+defs(eh='        | E3 | blocking | ep |\n        | E1 | blocking | ep |',th='        | T2 | blocking | tp |\n        | T1 | blocking | tp |')+GO+'}\nfn main() {\n    good::go();\n}\n')

seed('c25-topic-of-either-direction','C25','server/dispatch_macro.rs',[
("""                    a_is_subset_of_b(TP_HANDLER_IN_KEYS, &TP_IN_KEYS),""","""                    a_is_subset_of_b(TP_HANDLER_IN_KEYS, &TP_IN_KEYS)
                        || a_is_subset_of_b(TP_HANDLER_IN_KEYS, &TP_OUT_KEYS),"""),
],'a dispatcher all of whose topic handlers are for topics listed as outgoing only',
'a handler for a topic that is not listed as incoming is accepted; clients that discover the interface never learn of it, and its key is not part of the key-length computation of what the server receives',
both(defs(),defs(th='        | O2 | blocking | tp |')),kind='refused')

seed('c25-error-key-left-out','C25','server/dispatch_macro.rs',[
("""                &[$crate::standard_icd::ERROR_KEY],
            ]);
            pub const NEEDED_SZ: usize""","""            ]);
            pub const NEEDED_SZ: usize"""),
],'an endpoint with path "error" whose response type is the error type',
'a dispatcher with a reply that cannot be told from an error reply is accepted',
both(defs(),defs(ep='    | Ex | u8 | WireError | "error" |').replace('use postcard_rpc::{define','use postcard_rpc::standard_icd::WireError;\nuse postcard_rpc::{define')),kind='refused')

seed('c25-response-checked-against-requests-too','C25','server/dispatch_macro.rs',[
("""                    a_is_subset_of_b(EP_HANDLER_OUT_KEYS, &EP_OUT_KEYS),""","""                    a_is_subset_of_b(EP_HANDLER_OUT_KEYS, &EP_OUT_KEYS)
                        // handlers that answer with what they are given have one key for both
                        || a_is_subset_of_b(EP_HANDLER_OUT_KEYS, &EP_IN_KEYS),"""),
],'a dispatcher with one handler whose endpoint answers with the type of its request, listed with another response type',
'a handler whose response type is not the listed one is accepted: the interface the device reports is not the one it serves',
both(defs(ep='    | Ey | u8 | u16 | "d/y" |\n    | Ez | u64 | u8 | "d/z" |'),
 defs(ep='    | Ey | u64 | u16 | "d/y" |',eh='        | Ew | blocking | same |').replace('fn ep(','mod other {\n    use postcard_rpc::endpoints;\n    endpoints! {\n        list = MORE;\n        | EndpointTy | RequestTy | ResponseTy | Path |\n        | ---------- | --------- | ---------- | ---- |\n        | Ew | u64 | u64 | "d/y" |\n    }\n}\nuse other::Ew;\nfn same(_c: &mut Ctx, _h: VarHeader, v: u64) -> u64 {\n    v\n}\nfn ep(',1)),kind='refused')
