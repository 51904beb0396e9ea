use postcard_rpc::{
    endpoints, header::*, host_client::*, standard_icd::WireError, topics, Endpoint, Key, Topic, TopicDirection,
};
use std::{future::Future, time::Duration};
use tokio::sync::{mpsc, watch};

endpoints! {
    list = EPS;
    omit_std = true;
    | EndpointTy | RequestTy | ResponseTy | Path    |
    | ---------- | --------- | ---------- | ----    |
    | Add        | u32       | u64        | "d/add" |
    | Mul        | u32       | u16        | "d/mul" |
}
topics! {
    list = TPS;
    direction = TopicDirection::ToClient;
    omit_std = true;
    | TopicTy | MessageTy | Path  |
    | ------- | --------- | ----  |
    | News    | u32       | "d/n" |
    | Other   | u32       | "d/o" |
}

#[derive(Debug)]
pub struct Gone;
impl std::fmt::Display for Gone {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "gone")
    }
}
impl std::error::Error for Gone {}
pub struct Tx(mpsc::UnboundedSender<Vec<u8>>, watch::Receiver<bool>);
impl WireTx for Tx {
    type Error = Gone;
    fn send(&mut self, data: Vec<u8>) -> impl Future<Output = Result<(), Gone>> + Send {
        async move {
            self.1.wait_for(|open| *open).await.map_err(|_| Gone)?;
            self.0.send(data).map_err(|_| Gone)
        }
    }
}
pub struct Rx(mpsc::UnboundedReceiver<Vec<u8>>);
impl WireRx for Rx {
    type Error = Gone;
    fn receive(&mut self) -> impl Future<Output = Result<Vec<u8>, Gone>> + Send {
        async move { self.0.recv().await.ok_or(Gone) }
    }
}
pub struct Sp;
impl WireSpawn for Sp {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        tokio::spawn(fut);
    }
}
pub struct Peer {
    pub from: mpsc::UnboundedReceiver<Vec<u8>>,
    pub to: mpsc::UnboundedSender<Vec<u8>>,
    pub gate: watch::Sender<bool>,
}
impl Peer {
    pub async fn next(&mut self) -> (VarHeader, Vec<u8>) {
        let f = tokio::time::timeout(Duration::from_secs(5), self.from.recv()).await.expect("frame on the wire").unwrap();
        let (h, b) = VarHeader::take_from_slice(&f).unwrap();
        (h, b.to_vec())
    }
    pub fn reply<T: serde::Serialize>(&self, key: Key, kind: VarKeyKind, seq: VarSeq, t: &T) {
        let mut key = VarKey::Key8(key);
        key.shrink_to(kind);
        let mut f = VarHeader { key, seq_no: seq }.write_to_vec();
        f.extend(postcard::to_stdvec(t).unwrap());
        let _ = self.to.send(f);
    }
}
pub fn client(seq: VarSeqKind, depth: usize, timeout: Duration) -> (HostClient<WireError>, Peer) {
    let (a, from) = mpsc::unbounded_channel();
    let (to, b) = mpsc::unbounded_channel();
    let (gate, g) = watch::channel(true);
    let c = HostClient::new_with_wire_and_config(
        Tx(a, g),
        Rx(b),
        Sp,
        &HostClientConfig {
            seq_kind: seq,
            err_uri_path: "error",
            outgoing_depth: depth,
            subscriber_timeout_if_full: timeout,
        },
    );
    (c, Peer { from, to, gate })
}
pub async fn soon<T>(f: impl Future<Output = T>) -> T {
    tokio::time::timeout(Duration::from_secs(5), f).await.expect("should have completed")
}
