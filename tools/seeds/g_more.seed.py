H='host_client/mod.rs'; U='host_client/util.rs'; S='server/mod.rs'
seed('c02-abandoned-tombstone','C02',H,[
("""        self.out.send(rqst).await.map_err(|_| HostErr::Closed)?;

        select! {""","""        // Remember requests that were given up, so that their late replies can
        // be recognised and dropped
        struct Abandon<'a>(&'a HostContext, VarHeader, bool);
        impl Drop for Abandon<'_> {
            fn drop(&mut self) {
                if !self.2 {
                    self.0.abandoned.lock().unwrap().push(self.1);
                }
            }
        }
        let mut guard = Abandon(
            &self.ctx,
            VarHeader {
                seq_no: rqst.header.seq_no,
                key: resp_key,
            },
            false,
        );

        self.out.send(rqst).await.map_err(|_| HostErr::Closed)?;

        let res = select! {"""),
("""                let r = postcard::from_bytes::<WireErr>(&resp)?;
                Err(HostErr::Wire(r))
            },
        }
    }
""","""                match postcard::from_bytes::<WireErr>(&resp) {
                    Ok(r) => Err(HostErr::Wire(r)),
                    Err(e) => Err(e.into()),
                }
            },
        };
        guard.2 = true;
        res
    }
"""),
("""            seq: AtomicU32::new(0),
""","""            seq: AtomicU32::new(0),
            abandoned: Default::default(),
"""),
("""    seq: AtomicU32,
    subscription_timeout: Duration,
""","""    seq: AtomicU32,
    abandoned: std::sync::Mutex<Vec<VarHeader>>,
    subscription_timeout: Duration,
"""),
("""    pub fn process_did_wake(&self, frame: RpcFrame) -> Result<bool, ProcessError> {
""","""    pub fn process_did_wake(&self, frame: RpcFrame) -> Result<bool, ProcessError> {
        {
            let mut gone = self.abandoned.lock().unwrap();
            if let Some(ix) = gone.iter().position(|h| *h == frame.header) {
                gone.swap_remove(ix);
                return Ok(false);
            }
        }
""")],
"a call given up and never answered, followed by a full cycle of 1-byte sequence numbers: the next call to that endpoint with the same number",
"the reply to the later call is taken for the late reply of the abandoned one and dropped: the call hangs",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq1, 8, Duration::ZERO);
    let r = tokio::time::timeout(Duration::from_millis(50), c.send_resp::<Add>(&1)).await;
    assert!(r.is_err());
    p.next().await;
    tokio::spawn(async move {
        loop {
            let (h, b) = p.next().await;
            let n: u32 = postcard::from_bytes(&b).unwrap();
            p.reply(Add::RESP_KEY, VarKeyKind::Key8, h.seq_no, &(n as u64));
        }
    });
    for i in 0..300 {
        assert_eq!(soon(c.send_resp::<Add>(&i)).await, Ok(i as u64));
    }
}
""")
seed('c03-same-frame-skipped','C03',U,[
("""    loop {
        let Some(msg) = rec.recv().await else {""","""    let mut last = Vec::new();
    loop {
        let Some(msg) = rec.recv().await else {"""),
("""        if let Err(e) = wire.send(msg.to_bytes()).await {""","""        let bytes = msg.to_bytes();
        // Nothing new
        if bytes == last {
            continue;
        }
        last.clone_from(&bytes);
        if let Err(e) = wire.send(bytes).await {""")],
"two topic messages with equal contents and equal sequence numbers published one right after the other",
"the second message never reaches the wire",
"""//PRELUDE
topics! { list = UP; direction = TopicDirection::ToServer; omit_std = true; | TopicTy | MessageTy | Path | | --- | --- | --- | | Step | u8 | "d/step" | }
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq1, 8, Duration::ZERO);
    for _ in 0..3 {
        c.publish::<Step>(VarSeq::Seq1(0), &1).await.unwrap();
    }
    c.publish::<Step>(VarSeq::Seq1(0), &2).await.unwrap();
    for want in [1u8, 1, 1, 2] {
        assert_eq!(p.next().await.1, vec![want]);
    }
}
""")
seed('c05-empty-reply-not-learnt','C05',H,[
("""            o = ok_resp => {
                let (hdr, resp) = o?;
                if hdr.key.kind() != kkind {""","""            o = ok_resp => {
                let (hdr, resp) = o?;
                if hdr.key.kind() != kkind && !resp.is_empty() {""")],
"the first reply from the server being one without any payload (an endpoint whose response is the unit type)",
"the client keeps sending full-length keys although the server uses shorter ones",
"""//PRELUDE
endpoints! { list = EPS2; omit_std = true; | EndpointTy | RequestTy | ResponseTy | Path | | --- | --- | --- | --- | | Poke | u8 | () | "d/poke" | }
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq1, 8, Duration::ZERO);
    let c2 = c.clone();
    let t = tokio::spawn(async move { c2.send_resp::<Poke>(&1).await });
    let (h, _) = p.next().await;
    p.reply(Poke::RESP_KEY, VarKeyKind::Key2, h.seq_no, &());
    assert_eq!(soon(t).await.unwrap(), Ok(()));
    let _t = tokio::spawn(async move { c.send_resp::<Poke>(&1).await });
    let (h, _) = p.next().await;
    assert_eq!(h.key.kind(), VarKeyKind::Key2);
}
""")
seed('c06-taken-number-closes','C06',H,[
("""                    // TODO: This is the wrong kind of error, but we don't want to report closed.
                    // Fix this in the next breaking change of postcard-rpc, or make HostErr non-exhaustive
                    HostErr::BadResponse""","""                    // TODO: This is the wrong kind of error. Fix this in the next breaking
                    // change of postcard-rpc, or make HostErr non-exhaustive
                    self.close();
                    HostErr::BadResponse""")],
"a call that stays unanswered for a full cycle of 1-byte sequence numbers",
"the next call closes the client for every clone, although nothing failed and nobody closed it",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq1, 8, Duration::ZERO);
    let c2 = c.clone();
    let first = tokio::spawn(async move { c2.send_resp::<Add>(&1).await });
    let (h0, _) = p.next().await;
    let to = p.to.clone();
    tokio::spawn(async move {
        loop {
            let (h, _) = p.next().await;
            p.reply(Add::RESP_KEY, VarKeyKind::Key8, h.seq_no, &7u64);
        }
    });
    for _ in 0..300 {
        let r = soon(c.send_resp::<Add>(&2)).await;
        assert!(r != Err(HostErr::Closed));
    }
    assert!(!c.is_closed());
    let mut f = VarHeader { key: VarKey::Key8(Add::RESP_KEY), seq_no: h0.seq_no }.write_to_vec();
    f.extend(postcard::to_stdvec(&9u64).unwrap());
    to.send(f).unwrap();
    assert_eq!(soon(first).await.unwrap(), Ok(9));
}
""")
seed('c07-same-header-skipped','C07',U,[
("""    loop {
        let Ok(res) = wire.receive().await else {""","""    let mut last = None;
    loop {
        let Ok(res) = wire.receive().await else {"""),
("""        trace!("in_worker received {hdr:?}");
""","""        trace!("in_worker received {hdr:?}");

        // A repeated header means that the wire delivered the frame twice
        if last.replace(hdr) == Some(hdr) {
            continue;
        }
""")],
"two messages of a topic in a row that carry the same sequence number, as servers may send them",
"the second message is not delivered",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, p) = client(VarSeqKind::Seq1, 8, Duration::ZERO);
    let mut s = c.subscribe_exclusive::<News>(8).await.unwrap();
    for n in 0..4u32 {
        p.reply(News::TOPIC_KEY, VarKeyKind::Key8, VarSeq::Seq1(0), &n);
    }
    for n in 0..4u32 {
        assert_eq!(soon(s.recv()).await, Some(n));
    }
}
""")
SRV="""use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection, Endpoint, Topic, header::*, standard_icd::*};
use postcard_rpc::server::{AsWireTxErrorKind, Sender, WireTx, WireTxErrorKind};
use std::sync::{Arc, Mutex};
/// Records frames; sends with these indices fail
#[derive(Clone)]
pub struct Rec(Arc<Mutex<(usize, Vec<usize>, Vec<Vec<u8>>)>>);
#[derive(Debug)]
pub struct Oops;
impl AsWireTxErrorKind for Oops { fn as_kind(&self) -> WireTxErrorKind { WireTxErrorKind::Other } }
impl WireTx for Rec {
    type Error = Oops;
    async fn send<T: serde::Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), Oops> {
        let mut f = hdr.write_to_vec();
        f.extend(postcard::to_stdvec(msg).map_err(|_| Oops)?);
        self.send_raw(&f).await
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), Oops> {
        let mut s = self.0.lock().unwrap();
        s.0 += 1;
        let n = s.0 - 1;
        if s.1.contains(&n) { return Err(Oops); }
        s.2.push(buf.to_vec());
        Ok(())
    }
    async fn send_log_str(&self, _k: VarKeyKind, _s: &str) -> Result<(), Oops> { Ok(()) }
    async fn send_log_fmt<'a>(&self, _k: VarKeyKind, _a: std::fmt::Arguments<'a>) -> Result<(), Oops> { Ok(()) }
}
"""
seed('c22-small-topic-numbers-narrowed','C22',S,[
("""        let mut key = VarKey::Key8(T::TOPIC_KEY);
        key.shrink_to(self.kkind);
        let wh = VarHeader { key, seq_no };""","""        let mut key = VarKey::Key8(T::TOPIC_KEY);
        key.shrink_to(self.kkind);
        // Save some bytes if the number allows it
        let seq_no = match seq_no {
            VarSeq::Seq4(n) if n <= 0xFFFF => VarSeq::Seq2(n as u16),
            other => other,
        };
        let wh = VarHeader { key, seq_no };""")],
"a topic message published with a 4-byte sequence number of less than 65536",
"the message reaches the client with a header other than the one it was given: its sequence number has another width",
SRV+"""
topics! { list = TOUT; direction = TopicDirection::ToClient; omit_std = true; | TopicTy | MessageTy | Path | | --- | --- | --- | | News | u8 | "d/news" | }
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let rec = Rec(Arc::new(Mutex::new((0, vec![], vec![]))));
    let s = Sender::new(rec.clone(), VarKeyKind::Key4);
    for n in [0u32, 5, 0xffff, 0x10000, u32::MAX] {
        s.publish::<News>(VarSeq::Seq4(n), &1).await.unwrap();
        let f = rec.0.lock().unwrap().2.pop().unwrap();
        let (h, _) = VarHeader::take_from_slice(&f).unwrap();
        assert!(matches!(h.seq_no, VarSeq::Seq4(m) if m == n), "{h:?}");
    }
}
""")
seed('c20-failed-sends-counted-once','C20',S,[
("""            if res.is_err() {
                err_ctr += 1;
            };
            msg_ctr += 1;""","""            if res.is_err() {
                err_ctr = 1;
            };
            msg_ctr += 1;""")],
"sending more than one of the type messages fails while the schema is being reported",
"the closing reply understates how many messages could not be sent",
SRV+"""
use postcard_rpc::DeviceMap;
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let rec = Rec(Arc::new(Mutex::new((0, vec![0, 2, 5], vec![]))));
    let s = Sender::new(rec.clone(), VarKeyKind::Key8);
    let map = DeviceMap {
        types: STANDARD_ICD_TOPICS_OUT.types,
        endpoints: STANDARD_ICD_ENDPOINTS.endpoints,
        topics_in: &[],
        topics_out: STANDARD_ICD_TOPICS_OUT.topics,
        min_key_len: VarKeyKind::Key8,
    };
    assert!(map.types.len() > 3);
    s.send_all_schemas(&VarHeader { key: VarKey::Key8(GetAllSchemasEndpoint::REQ_KEY), seq_no: VarSeq::Seq1(3) }, &map).await.unwrap();
    let last = rec.0.lock().unwrap().2.pop().unwrap();
    let (_, b) = VarHeader::take_from_slice(&last).unwrap();
    let t: SchemaTotals = postcard::from_bytes(b).unwrap();
    assert_eq!(t.errors, 3);
}
""")
seed('c20-types-told-apart-by-name','C20',H,[
("""    pub fn add_type(&mut self, t: OwnedNamedType) {
        self.types.insert(t);""","""    pub fn add_type(&mut self, t: OwnedNamedType) {
        // The names of types are unique
        if self.types.iter().any(|old| old.name == t.name) {
            return;
        }
        self.types.insert(t);""")],
"a device whose interface uses two different types of the same name, from different modules",
"the report lacks one of the types, or endpoints that use it cannot be resolved",
"""use postcard_rpc::host_client::SchemaReport;
use postcard_schema::{schema::owned::OwnedNamedType, Schema};
mod a { #[derive(postcard_schema::Schema)] pub struct Config { pub x: u8 } }
mod b { #[derive(postcard_schema::Schema)] pub struct Config { pub y: u16, pub z: u32 } }
fn main() {
    let mut r = SchemaReport::default();
    r.add_type(OwnedNamedType::from(a::Config::SCHEMA));
    r.add_type(OwnedNamedType::from(b::Config::SCHEMA));
    for t in [a::Config::SCHEMA, b::Config::SCHEMA] {
        assert!(r.types.contains(&OwnedNamedType::from(t)));
        let t = OwnedNamedType::from(t);
        let k = postcard_rpc::Key::for_owned_schema_path("d/x", &t);
        assert!(r.add_topic_in("d/x".into(), k).is_ok());
    }
}
""")
seed('c13-fourth-failed-send-fatal','C13',S,[
("""        loop {
            let Self {
                tx,""","""        let mut failed = 0;
        loop {
            let Self {
                tx,"""),
("""                    WireTxErrorKind::Other => {}""","""                    WireTxErrorKind::Other => {
                        failed += 1;
                        if failed > 3 {
                            return ServerError::TxFatal(e);
                        }
                    }""")],
"four replies, with any number of good ones between them, that cannot be sent for an unspecified reason",
"the server stops although none of the errors is a fatal one",
SRV+"""
use postcard_rpc::server::{Dispatch, Server, SpawnContext, WireRx, WireRxErrorKind, WireSpawn};
endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | --- | --- | --- | --- | }
topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | --- | --- | --- | }
topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | --- | --- | --- | }
#[derive(Clone)]
pub struct Sp;
impl WireSpawn for Sp { type Error = (); type Info = (); fn info(&self) -> &() { &() } }
#[allow(unused)]
fn spawn_fn<F>(_s: &Sp, _f: F) -> Result<(), ()> { Err(()) }
pub struct Ctx;
define_dispatch! {
    app: App; spawn_fn: spawn_fn; tx_impl: Rec; spawn_impl: Sp; context: Ctx;
    endpoints: { list: EPS; | EndpointTy | kind | handler | | --- | --- | --- | };
    topics_in: { list: TIN; | TopicTy | kind | handler | | --- | --- | --- | };
    topics_out: { list: TOUT; };
}
pub struct Pings(usize);
impl WireRx for Pings {
    type Error = WireRxErrorKind;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], WireRxErrorKind> {
        if self.0 == 0 { return Err(WireRxErrorKind::ConnectionClosed); }
        self.0 -= 1;
        let mut f = VarHeader { key: VarKey::Key8(PingEndpoint::REQ_KEY), seq_no: VarSeq::Seq1(self.0 as u8) }.write_to_vec();
        f.push(self.0 as u8);
        buf[..f.len()].copy_from_slice(&f);
        Ok(&mut buf[..f.len()])
    }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    // each of these pings: the reply fails, then the error reply fails
    let rec = Rec(Arc::new(Mutex::new((0, (0..40).filter(|i| i % 4 < 2).collect(), vec![]))));
    let app = App::new(Ctx, Sp);
    let kk = app.min_key_len();
    let mut srv = Server::new(rec.clone(), Pings(60), vec![0u8; 64], app, kk);
    let _ = srv.run().await;
    assert_eq!(srv_left(&rec), 60);
}
fn srv_left(rec: &Rec) -> usize {
    let s = rec.0.lock().unwrap();
    // every ping was handled: sent once, or failed
    let mut seen: Vec<u8> = s.2.iter().map(|f| match VarHeader::take_from_slice(f).unwrap().0.seq_no { VarSeq::Seq1(n) => n, _ => panic!() }).collect();
    seen.sort();
    assert!(seen.contains(&0), "the server stopped early: {seen:?}");
    60
}
""")
