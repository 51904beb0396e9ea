//! The in-memory wire, an independent header codec, and helpers.
#![allow(dead_code)]

use postcard_rpc::header::{VarKeyKind, VarSeqKind};
use postcard_rpc::host_client::{HostClient, HostClientConfig, WireRx, WireSpawn, WireTx};
use postcard_rpc::standard_icd::{WireError, ERROR_PATH};
use postcard_rpc::Key;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

// ---------------------------------------------------------------------------
// wire format, written down independently of the code under test
// ---------------------------------------------------------------------------

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Hdr {
    /// 1, 2, 4 or 8 bytes
    pub key: Vec<u8>,
    /// 1, 2 or 4 bytes, little endian
    pub seq: Vec<u8>,
}

impl Hdr {
    pub fn seq_u32(&self) -> u32 {
        let mut b = [0u8; 4];
        b[..self.seq.len()].copy_from_slice(&self.seq);
        u32::from_le_bytes(b)
    }
}

pub fn reduce(full: [u8; 8], n: usize) -> Vec<u8> {
    let k = 8 / n;
    (0..n).map(|i| full[i * k..(i + 1) * k].iter().fold(0, |a, b| a ^ b)).collect()
}

pub fn key_n(k: Key, n: usize) -> Vec<u8> {
    reduce(k.to_bytes(), n)
}

pub fn seq_n(v: u32, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}

pub fn encode(h: &Hdr, body: &[u8]) -> Vec<u8> {
    let l = |n: usize| n.trailing_zeros() as u8;
    let mut v = vec![l(h.key.len()) << 6 | l(h.seq.len()) << 4];
    v.extend_from_slice(&h.key);
    v.extend_from_slice(&h.seq);
    v.extend_from_slice(body);
    v
}

pub fn frame(key: Key, kn: usize, seq: u32, sn: usize, body: &[u8]) -> Vec<u8> {
    encode(&Hdr { key: key_n(key, kn), seq: seq_n(seq, sn) }, body)
}

pub fn decode(b: &[u8]) -> Option<(Hdr, &[u8])> {
    let d = *b.first()?;
    if d & 0x0f != 0 {
        return None;
    }
    let kn = 1usize << (d >> 6);
    let sb = (d >> 4) & 3;
    if sb == 3 {
        return None;
    }
    let sn = 1usize << sb;
    if b.len() < 1 + kn + sn {
        return None;
    }
    Some((
        Hdr { key: b[1..1 + kn].to_vec(), seq: b[1 + kn..1 + kn + sn].to_vec() },
        &b[1 + kn + sn..],
    ))
}

pub fn kk(n: usize) -> VarKeyKind {
    match n {
        1 => VarKeyKind::Key1,
        2 => VarKeyKind::Key2,
        4 => VarKeyKind::Key4,
        _ => VarKeyKind::Key8,
    }
}

pub fn kk_len(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}

pub fn sk(n: usize) -> VarSeqKind {
    match n {
        1 => VarSeqKind::Seq1,
        2 => VarSeqKind::Seq2,
        _ => VarSeqKind::Seq4,
    }
}

// ---------------------------------------------------------------------------
// the wire
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SendState {
    Started,
    Done,
    Failed,
    Aborted,
}

#[derive(Default)]
pub struct WireSt {
    /// frames handed to the wire, in order
    pub out: Vec<(Vec<u8>, SendState)>,
    /// how many sends may complete (None: all)
    pub gate: Option<usize>,
    /// completing sends takes an extra round trip through the scheduler
    pub slow: bool,
    /// sends with this index and later fail
    pub fail_from: Option<usize>,
    pub inq: VecDeque<Vec<u8>>,
    pub rx_fail: bool,
    /// frames handed to the client
    pub taken: usize,
    pub taken_log: Vec<Vec<u8>>,
    /// `receive` called while `taken` frames were out (i.e. all are processed)
    pub idle_at: usize,
    pub rx_dropped: bool,
    pub tx_dropped: bool,
    pub workers: Vec<usize>,
    srv_waker: Option<Waker>,
    tx_waker: Option<Waker>,
    rx_waker: Option<Waker>,
    /// virtual time at which the n-th frame was taken by the client
    pub pop_time: Vec<Duration>,
    /// virtual time at which the client asked for the next frame after the n-th
    pub idle_time: Vec<Duration>,
    /// reads recorded by the readers of a scenario, and a snapshot per frame taken
    pub reads: [usize; 4],
    pub reads_at_pop: Vec<[usize; 4]>,
    /// index of the next frame the server end has not looked at
    pub seen: usize,
    pub overlap: bool,
}

#[derive(Clone, Default)]
pub struct Wire(pub Arc<Mutex<WireSt>>);

#[derive(Debug)]
pub struct WErr;
impl std::fmt::Display for WErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "wire error")
    }
}
impl std::error::Error for WErr {}

impl Wire {
    pub fn st(&self) -> MutexGuard<'_, WireSt> {
        self.0.lock().unwrap()
    }

    /// Server -> client
    pub fn push(&self, f: Vec<u8>) {
        vp_rt::log(|| format!("server sends {f:02x?}"));
        let w = {
            let mut s = self.st();
            s.inq.push_back(f);
            s.rx_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    pub fn fail_rx(&self) {
        vp_rt::log(|| "wire: receive fails".into());
        let w = {
            let mut s = self.st();
            s.rx_fail = true;
            s.rx_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    pub fn fail_tx(&self) {
        vp_rt::log(|| "wire: send fails".into());
        let w = {
            let mut s = self.st();
            s.fail_from = Some(0);
            s.tx_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    pub fn set_gate(&self, g: Option<usize>) {
        let w = {
            let mut s = self.st();
            s.gate = g;
            s.tx_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    /// Next frame the client put on the wire (completely).
    pub async fn next(&self) -> Vec<u8> {
        let me = self.clone();
        std::future::poll_fn(move |cx| {
            let mut s = me.st();
            while s.seen < s.out.len() {
                match s.out[s.seen].1 {
                    SendState::Done => {
                        s.seen += 1;
                        return Poll::Ready(s.out[s.seen - 1].0.clone());
                    }
                    SendState::Started => break,
                    _ => s.seen += 1,
                }
            }
            s.srv_waker = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }

    pub fn frames(&self) -> Vec<Vec<u8>> {
        self.st()
            .out
            .iter()
            .filter(|f| f.1 == SendState::Done)
            .map(|f| f.0.clone())
            .collect()
    }
}

pub struct Tx(pub Wire);
pub struct Rx(pub Wire);
pub struct Sp(pub Wire);

impl Drop for Tx {
    fn drop(&mut self) {
        self.0.st().tx_dropped = true;
    }
}
impl Drop for Rx {
    fn drop(&mut self) {
        self.0.st().rx_dropped = true;
    }
}

struct SendFut {
    w: Wire,
    ix: usize,
    polls: usize,
    over: bool,
}

impl Drop for SendFut {
    fn drop(&mut self) {
        if !self.over {
            self.w.st().out[self.ix].1 = SendState::Aborted;
        }
    }
}

impl Future for SendFut {
    type Output = Result<(), WErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        vp_rt::point("wire.send");
        let w = self.w.clone();
        let ix = self.ix;
        self.polls += 1;
        let mut s = w.st();
        if let Some(n) = s.fail_from {
            if ix >= n {
                s.out[ix].1 = SendState::Failed;
                let wk = s.srv_waker.take();
                drop(s);
                self.over = true;
                if let Some(x) = wk {
                    x.wake()
                }
                return Poll::Ready(Err(WErr));
            }
        }
        if s.slow && self.polls == 1 {
            drop(s);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if s.gate.map(|g| ix < g).unwrap_or(true) {
            s.out[ix].1 = SendState::Done;
            let wk = s.srv_waker.take();
            drop(s);
            self.over = true;
            if let Some(x) = wk {
                x.wake()
            }
            Poll::Ready(Ok(()))
        } else {
            s.tx_waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl WireTx for Tx {
    type Error = WErr;
    fn send(&mut self, data: Vec<u8>) -> impl Future<Output = Result<(), WErr>> + Send {
        let w = self.0.clone();
        async move {
            vp_rt::log(|| format!("wire: client sends {data:02x?}"));
            let ix = {
                let mut s = w.st();
                if s.out.iter().any(|o| o.1 == SendState::Started) {
                    s.overlap = true;
                }
                s.out.push((data, SendState::Started));
                s.out.len() - 1
            };
            SendFut { w: w.clone(), ix, polls: 0, over: false }.await
        }
    }
}

impl WireRx for Rx {
    type Error = WErr;
    fn receive(&mut self) -> impl Future<Output = Result<Vec<u8>, WErr>> + Send {
        let w = self.0.clone();
        std::future::poll_fn(move |cx| {
            vp_rt::point("wire.receive");
            let mut s = w.st();
            s.idle_at = s.taken;
            while s.idle_time.len() < s.taken {
                s.idle_time.push(vp_rt::now());
            }
            if let Some(f) = s.inq.pop_front() {
                s.taken += 1;
                s.pop_time.push(vp_rt::now());
                let rd = s.reads;
                s.reads_at_pop.push(rd);
                s.taken_log.push(f.clone());
                drop(s);
                vp_rt::log(|| format!("wire: client gets {f:02x?}"));
                return Poll::Ready(Ok(f));
            }
            if s.rx_fail {
                return Poll::Ready(Err(WErr));
            }
            s.rx_waker = Some(cx.waker().clone());
            Poll::Pending
        })
    }
}

impl WireSpawn for Sp {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        let n = self.0.st().workers.len();
        let id = vp_rt::spawn(format!("worker{n}"), fut);
        self.0.st().workers.push(id);
    }
}

pub type Client = HostClient<WireError>;

pub fn client(w: &Wire, seq: usize, depth: usize, timeout: Duration) -> Client {
    HostClient::new_with_wire_and_config(
        Tx(w.clone()),
        Rx(w.clone()),
        Sp(w.clone()),
        &HostClientConfig {
            seq_kind: sk(seq),
            err_uri_path: ERROR_PATH,
            outgoing_depth: depth,
            subscriber_timeout_if_full: timeout,
        },
    )
}

// ---------------------------------------------------------------------------
// helpers
// ---------------------------------------------------------------------------

/// Run `fut`; at each of its polls it may (at the cost of one deviation) be
/// dropped instead. `None`: it was dropped.
pub struct MayDrop<F>(Option<Pin<Box<F>>>);

pub fn may_drop<F: Future>(f: F) -> MayDrop<F> {
    MayDrop(Some(Box::pin(f)))
}

impl<F: Future> Future for MayDrop<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => {
                self.0 = None;
                Poll::Ready(Some(v))
            }
            Poll::Pending => {
                if vp_rt::deviate(2, "cancel") == 1 {
                    vp_rt::log(|| "cancelled".into());
                    self.0 = None;
                    return Poll::Ready(None);
                }
                Poll::Pending
            }
        }
    }
}

/// A cell shared by tasks of one execution.
pub struct Sh<T>(Arc<Mutex<T>>);
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<T> Sh<T> {
    pub fn new(t: T) -> Self {
        Sh(Arc::new(Mutex::new(t)))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(&mut self.0.lock().unwrap())
    }
}
impl<T: Clone> Sh<T> {
    pub fn get(&self) -> T {
        self.with(|t| t.clone())
    }
}

/// Signal that can be awaited.
#[derive(Clone, Default)]
pub struct Flag(Arc<Mutex<(bool, Vec<Waker>)>>);
impl Flag {
    pub fn set(&self) {
        let ws = {
            let mut g = self.0.lock().unwrap();
            g.0 = true;
            std::mem::take(&mut g.1)
        };
        for w in ws {
            w.wake()
        }
    }
    pub fn is_set(&self) -> bool {
        self.0.lock().unwrap().0
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if g.0 {
                Poll::Ready(())
            } else {
                g.1.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}
