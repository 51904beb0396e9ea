INPROC=r"""
use postcard_rpc::header::{VarHeader, VarKeyKind, VarKey, VarSeq, VarSeqKind};
use postcard_rpc::server::impls::test_channels::{dispatch_impl::*, ChannelWireRx, ChannelWireSpawn, ChannelWireTx};
use postcard_rpc::server::{Dispatch, Sender, SpawnContext, WireTx};
use postcard_rpc::host_client::test_channels::new_from_channels;
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;
pub struct Ctx(Arc<Mutex<Vec<usize>>>);
impl SpawnContext for Ctx {
    type SpawnCtxt = ();
    fn spawn_ctxt(&mut self) {}
}
fn tp(c: &mut Ctx, _h: VarHeader, v: String, _o: &Sender<WireTxImpl>) {
    c.0.lock().unwrap().push(v.len());
}
endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | T1 | String | "d/t1" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
}
define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
        | T1 | blocking | tp |
    };
    topics_out: {
        list: TOUT;
    };
}
"""
seed('c26-full-buffer-too-large','C26','server/impls/test_channels.rs',[
("""                let out = buf
                    .get_mut(..msg.len())
                    .ok_or(ChannelWireRxError::MessageTooLarge)?;
                out.copy_from_slice(&msg);
                Ok(out)""","""                if msg.len() >= buf.len() {
                    return Err(ChannelWireRxError::MessageTooLarge);
                }
                let out = &mut buf[..msg.len()];
                out.copy_from_slice(&msg);
                Ok(out)"""),
],'a frame exactly as long as the receive buffer of the server',
'a frame that fits the receive buffer is dropped as too large',
INPROC+r"""
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for n in 0..40 {
        let (a, b) = mpsc::channel(4);
        let (c, d) = mpsc::channel(4);
        let got = Arc::new(Mutex::new(vec![]));
        let app = App::new(Ctx(got.clone()), ChannelWireSpawn);
        let kkind = app.min_key_len();
        let mut srv = new_server(app, Settings { tx: ChannelWireTx::new(c), rx: ChannelWireRx::new(b), buf: 32, kkind });
        tokio::task::spawn(async move { srv.run().await; });
        let cl = new_from_channels(a, d, VarSeqKind::Seq1);
        cl.publish::<T1>(VarSeq::Seq1(1), &"x".repeat(n)).await.unwrap();
        cl.publish::<T1>(VarSeq::Seq1(2), &String::new()).await.unwrap();
        for _ in 0..50 { tokio::task::yield_now().await; }
        // header of 10 bytes, length byte
        let want = if 11 + n <= 32 { vec![n, 0] } else { vec![0] };
        assert_eq!(*got.lock().unwrap(), want, "message of {n} bytes");
    }
}
""")
seed('c26-log-numbers-per-clone','C26','server/impls/test_channels.rs',[
("""/// A [`WireTx`] impl using tokio mpsc channels
#[derive(Clone)]
pub struct ChannelWireTx {""","""/// A [`WireTx`] impl using tokio mpsc channels
pub struct ChannelWireTx {"""),
("""impl ChannelWireTx {
    /// Create a new""","""impl Clone for ChannelWireTx {
    fn clone(&self) -> Self {
        Self {
            tx: self.tx.clone(),
            log_ctr: Arc::new(AtomicU32::new(self.log_ctr.load(Ordering::Relaxed))),
            stopper: self.stopper.clone(),
        }
    }
}

impl ChannelWireTx {
    /// Create a new"""),
],'log messages sent through two clones of a sender of one server',
'log messages of one server share numbers',
INPROC+r"""
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut d) = mpsc::channel(16);
    let tx = ChannelWireTx::new(c);
    let other = tx.clone();
    for k in 0..3 {
        tx.send_log_str(VarKeyKind::Key1, &format!("a{k}")).await.unwrap();
        other.send_log_fmt(VarKeyKind::Key1, format_args!("b{k}")).await.unwrap();
    }
    for k in 0..6u32 {
        let f = d.recv().await.unwrap();
        assert_eq!(VarHeader::take_from_slice(&f).unwrap().0.seq_no, VarSeq::Seq4(k));
    }
}
""")
