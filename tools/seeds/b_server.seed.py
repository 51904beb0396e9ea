D='server/dispatch_macro.rs'; S='server/mod.rs'
seed('c11-outgoing-topics-ignored','C11',D,[
("""                &EP_OUT_KEYS,
                &TP_OUT_KEYS,
""","""                &EP_OUT_KEYS,
""")],
"an outgoing topic whose reduced key coincides with that of a response or of another outgoing topic",
"the dispatcher picks a key length at which the two outgoing messages are indistinguishable to the client",
"""use postcard_rpc::{define_dispatch, endpoints, topics, server::{Dispatch, impls::test_channels::dispatch_impl::*}, TopicDirection, header::VarKeyKind};
endpoints! { list = EPS; omit_std = true; | EndpointTy | RequestTy | ResponseTy | Path | | --- | --- | --- | --- | }
topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | --- | --- | --- | }
topics! { list = TOUT; direction = TopicDirection::ToClient;
  | TopicTy | MessageTy | Path |
  | --- | --- | --- |
  @ROWS@
}
pub struct Ctx;
define_dispatch! {
    app: App; spawn_fn: spawn_fn; tx_impl: WireTxImpl; spawn_impl: WireSpawnImpl; context: Ctx;
    endpoints: { list: EPS; | EndpointTy | kind | handler | | --- | --- | --- | };
    topics_in: { list: TIN; | TopicTy | kind | handler | | --- | --- | --- | };
    topics_out: { list: TOUT; };
}
fn main() {
    let n = App::new(Ctx, WireSpawnImpl {});
    // 300 outgoing topics cannot be told apart by one byte
    let kind = n.min_key_len();
    assert!(kind != VarKeyKind::Key1, "one byte keys cannot tell 300 topics apart");
}
""".replace('@ROWS@','\n'.join(f'  | T{i} | u8 | "demo/t{i}" |' for i in range(300))))
seed('c12-key4-to-key2-fold','C12','lib.rs',[
("""            VarKey::Key4(key4) => Key2::from_key4(*key4),
            VarKey::Key8(key) => Key2::from_key8(*key),""","""            VarKey::Key4(key4) => Key2([key4.0[0] ^ key4.0[2], key4.0[1] ^ key4.0[3]]),
            VarKey::Key8(key) => Key2::from_key8(*key),""")],
"a server whose key length is 2 receiving a frame with a 4-byte key",
"the request is answered with an unknown-key error (or runs another handler) instead of its own handler",
"""//PRELUDE
use postcard_rpc::{Key1, Key2, Key4};
fn main() {
    let k4 = Key4::from_key8(Add::REQ_KEY);
    let got = Key2::try_from(&VarKey::Key4(k4)).ok().unwrap();
    assert_eq!(got.to_bytes(), Key2::from_key8(Add::REQ_KEY).to_bytes());
}
""")
seed('c13-blocking-error-swallowed','C13',D,[
("""            let reply = $handler($context, $header.clone(), $req);
            if $outputter.reply::<$endpoint>($header.seq_no, &reply).await.is_err() {
                let err = $crate::standard_icd::WireError::SerFailed;
                $outputter.error($header.seq_no, err).await
            } else {
                Ok(())
            }""","""            let reply = $handler($context, $header.clone(), $req);
            if $outputter.reply::<$endpoint>($header.seq_no, &reply).await.is_err() {
                let err = $crate::standard_icd::WireError::SerFailed;
                // best effort, the handler itself has run fine
                let _ = $outputter.error($header.seq_no, err).await;
            }
            Ok(())""")],
"the sending side closes while the reply of a blocking handler is being sent",
"the run loop does not return the fatal error but carries on handling frames",
"""use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection, Endpoint, header::*};
use postcard_rpc::server::{impls::test_channels::{*, dispatch_impl::*}, Server, ServerError, Dispatch};
use std::{sync::{Arc, atomic::{AtomicUsize, Ordering::*}}, time::Duration};
endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | --- | --- | --- | --- | | Add | u32 | u64 | "d/add" | }
topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | --- | --- | --- | }
topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | --- | --- | --- | }
pub struct Ctx(Arc<AtomicUsize>);
fn add(c: &mut Ctx, _h: VarHeader, r: u32) -> u64 { c.0.fetch_add(1, SeqCst); r as u64 }
define_dispatch! {
    app: App; spawn_fn: spawn_fn; tx_impl: WireTxImpl; spawn_impl: WireSpawnImpl; context: Ctx;
    endpoints: { list: EPS; | EndpointTy | kind | handler | | --- | --- | --- | | Add | blocking | add | };
    topics_in: { list: TIN; | TopicTy | kind | handler | | --- | --- | --- | };
    topics_out: { list: TOUT; };
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (ctx, crx) = tokio::sync::mpsc::channel(16);
    let (stx, srx) = tokio::sync::mpsc::channel(16);
    let n = Arc::new(AtomicUsize::new(0));
    let app = App::new(Ctx(n.clone()), WireSpawnImpl {});
    let kk = app.min_key_len();
    let mut srv = Server::new(ChannelWireTx::new(stx), ChannelWireRx::new(crx), vec![0u8; 1024], app, kk);
    drop(srx); // nobody takes replies any more
    for i in 0..2 {
        let mut f = VarHeader { key: VarKey::Key8(Add::REQ_KEY), seq_no: VarSeq::Seq1(i) }.write_to_vec();
        f.extend(postcard::to_stdvec(&1u32).unwrap());
        ctx.send(f).await.unwrap();
    }
    let r = tokio::time::timeout(Duration::from_millis(500), srv.run()).await;
    assert!(matches!(r, Ok(ServerError::TxFatal(_))), "run loop did not stop");
    assert_eq!(n.load(SeqCst), 1);
}
""")
seed('c17-no-reset-after-corrupt','C17','accumulator.rs',[
("""                    let retval = match decode_in_place(&mut self.buf[..self.idx]) {
                        Ok(used) => FeedResult::Success {
                            data: &self.buf[..used],
                            remaining: release,
                        },
                        Err(_) => FeedResult::DeserError(release),
                    };
                    self.idx = 0;
                    retval""","""                    match decode_in_place(&mut self.buf[..self.idx]) {
                        Ok(used) => {
                            self.idx = 0;
                            FeedResult::Success {
                                data: &self.buf[..used],
                                remaining: release,
                            }
                        }
                        Err(_) => FeedResult::DeserError(release),
                    }""")],
"a corrupt frame followed by a well-formed one",
"the bytes of the corrupt frame stay in the buffer and spoil the next well-formed frame",
"""use postcard_rpc::accumulator::raw::*;
fn main() {
    let mut a = CobsAccumulator::<64>::new();
    // 05 01 00: code byte points past the end -> corrupt; then 03 0a 0b 00: a frame 0a 0b
    let stream = [5u8, 1, 0, 3, 10, 11, 0];
    let mut got = vec![];
    let mut win = &stream[..];
    while !win.is_empty() {
        win = match a.feed(win) {
            FeedResult::Consumed => break,
            FeedResult::OverFull(w) | FeedResult::DeserError(w) => w,
            FeedResult::Success { data, remaining } => { got.push(data.to_vec()); remaining }
        };
    }
    assert_eq!(got, vec![vec![10u8, 11]]);
}
""",features='["use-std","test-utils","cobs-serial"]')
seed('c21-tuple-eq-by-prefix','C21','uniques.rs',[
("""const fn ntys_eq(a: &[&NamedType], b: &[&NamedType]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {""","""const fn ntys_eq(a: &[&NamedType], b: &[&NamedType]) -> bool {
    let len = if a.len() < b.len() { a.len() } else { b.len() };
    let mut i = 0;
    while i < len {""")],
"an interface using two tuples (or arrays) of different lengths whose common prefix has the same types and the same schema name",
"the second one is taken for a duplicate and missing from the reported type list",
"""use postcard_rpc::{endpoints};
use postcard_schema::Schema;
endpoints! { list = EPS; omit_std = true; | EndpointTy | RequestTy | ResponseTy | Path | | --- | --- | --- | --- | | Arr | [u8; 3] | [u8; 5] | "d/arr" | }
fn main() {
    let n3 = EPS.types.iter().any(|t| **t == *<[u8; 3] as Schema>::SCHEMA);
    let n5 = EPS.types.iter().any(|t| **t == *<[u8; 5] as Schema>::SCHEMA);
    assert!(n3 && n5, "{:?}", EPS.types);
}
""")
