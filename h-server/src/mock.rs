//! Server-side mock wire: every outcome of every wire operation is chosen by the harness.
use crate::common::*;
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::server::*;
use serde::Serialize;
use std::collections::VecDeque;
use std::fmt::Arguments;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub fn var_bytes(k: &VarKey) -> Vec<u8> {
    match k {
        VarKey::Key1(k) => vec![k.to_bytes()],
        VarKey::Key2(k) => k.to_bytes().to_vec(),
        VarKey::Key4(k) => k.to_bytes().to_vec(),
        VarKey::Key8(k) => k.to_bytes().to_vec(),
    }
}

pub fn seq_bytes(s: &VarSeq) -> Vec<u8> {
    match s {
        VarSeq::Seq1(v) => v.to_le_bytes().to_vec(),
        VarSeq::Seq2(v) => v.to_le_bytes().to_vec(),
        VarSeq::Seq4(v) => v.to_le_bytes().to_vec(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Ok,
    Other,
    Timeout,
    Closed,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TxErr {
    pub out: Out,
    /// which send failed
    pub id: usize,
}

impl AsWireTxErrorKind for TxErr {
    fn as_kind(&self) -> WireTxErrorKind {
        match self.out {
            Out::Other => WireTxErrorKind::Other,
            Out::Timeout => WireTxErrorKind::Timeout,
            Out::Closed => WireTxErrorKind::ConnectionClosed,
            Out::Ok => unreachable!(),
        }
    }
}

#[derive(Default)]
pub struct TxSt {
    /// every attempt in order
    pub sent: Vec<(Vec<u8>, Out)>,
    pub script: Option<Box<dyn FnMut(usize, &[u8]) -> Out + Send>>,
    /// each send is pending once before completing
    pub slow: bool,
}

#[derive(Clone, Default)]
pub struct MTx(pub Arc<Mutex<TxSt>>);

impl MTx {
    pub fn ok_frames(&self) -> Vec<Vec<u8>> {
        self.0.lock().unwrap().sent.iter().filter(|s| s.1 == Out::Ok).map(|s| s.0.clone()).collect()
    }
    async fn push(&self, f: Vec<u8>) -> Result<(), TxErr> {
        let slow = self.0.lock().unwrap().slow;
        if slow {
            let mut first = true;
            std::future::poll_fn(|cx| {
                if std::mem::take(&mut first) {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                } else {
                    Poll::Ready(())
                }
            })
            .await;
        }
        let mut g = self.0.lock().unwrap();
        let id = g.sent.len();
        let mut sc = g.script.take();
        let o = match sc.as_mut() {
            Some(s) => s(id, &f),
            None => Out::Ok,
        };
        g.script = sc;
        vp_rt::log(|| format!("server send {id} {f:02x?}: {o:?}"));
        g.sent.push((f, o));
        if o == Out::Ok {
            Ok(())
        } else {
            Err(TxErr { out: o, id })
        }
    }
}

impl WireTx for MTx {
    type Error = TxErr;
    async fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), TxErr> {
        let h = Hdr { key: var_bytes(&hdr.key), seq: seq_bytes(&hdr.seq_no) };
        match postcard::to_stdvec(msg) {
            Ok(b) => self.push(encode(&h, &b)).await,
            Err(_) => {
                let mut g = self.0.lock().unwrap();
                let id = g.sent.len();
                g.sent.push((encode(&h, b"<unserializable>"), Out::Other));
                Err(TxErr { out: Out::Other, id })
            }
        }
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), TxErr> {
        self.push(buf.to_vec()).await
    }
    async fn send_log_str(&self, k: VarKeyKind, s: &str) -> Result<(), TxErr> {
        self.push(format!("log str {} {s}", kk_len(k)).into_bytes()).await
    }
    async fn send_log_fmt<'a>(&self, k: VarKeyKind, a: Arguments<'a>) -> Result<(), TxErr> {
        self.push(format!("log fmt {} {a}", kk_len(k)).into_bytes()).await
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum RxEv {
    Frame(Vec<u8>),
    TooLarge,
    Other,
    Closed,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct RxErr {
    pub kind: u8,
    pub id: usize,
}

impl AsWireRxErrorKind for RxErr {
    fn as_kind(&self) -> WireRxErrorKind {
        match self.kind {
            0 => WireRxErrorKind::ConnectionClosed,
            1 => WireRxErrorKind::ReceivedMessageTooLarge,
            _ => WireRxErrorKind::Other,
        }
    }
}

#[derive(Clone, Default)]
pub struct MRx(pub Arc<Mutex<(VecDeque<RxEv>, usize)>>);

impl MRx {
    pub fn new(ev: Vec<RxEv>) -> Self {
        MRx(Arc::new(Mutex::new((ev.into(), 0))))
    }
    pub fn taken(&self) -> usize {
        self.0.lock().unwrap().1
    }
}

impl WireRx for MRx {
    type Error = RxErr;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], RxErr> {
        let mut g = self.0.lock().unwrap();
        let id = g.1;
        let Some(e) = g.0.pop_front() else { return Err(RxErr { kind: 0, id: usize::MAX }) };
        g.1 += 1;
        match e {
            RxEv::Frame(f) if f.len() <= buf.len() => {
                let out = &mut buf[..f.len()];
                out.copy_from_slice(&f);
                Ok(out)
            }
            RxEv::Frame(_) | RxEv::TooLarge => {
                buf.fill(0);
                Err(RxErr { kind: 1, id })
            }
            RxEv::Other => {
                buf.fill(0xee);
                Err(RxErr { kind: 2, id })
            }
            RxEv::Closed => Err(RxErr { kind: 0, id }),
        }
    }
}

#[derive(Default)]
pub struct SpSt {
    pub fail: bool,
    pub tasks: Vec<Pin<Box<dyn Future<Output = ()>>>>,
}

#[derive(Clone, Default)]
pub struct MSpawn(pub Arc<Mutex<SpSt>>);
// (single-threaded use only)
unsafe impl Send for MSpawn {}

#[derive(Debug)]
pub struct NoRoom;

impl WireSpawn for MSpawn {
    type Error = NoRoom;
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}

pub fn m_spawn<F: Future<Output = ()> + 'static>(sp: &MSpawn, f: F) -> Result<(), NoRoom> {
    let mut g = sp.0.lock().unwrap();
    if g.fail {
        return Err(NoRoom);
    }
    g.tasks.push(Box::pin(f));
    Ok(())
}

pub fn drive<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..100_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("the future never completes");
}

impl MSpawn {
    pub fn run_all(&self) {
        loop {
            let t = std::mem::take(&mut self.0.lock().unwrap().tasks);
            if t.is_empty() {
                return;
            }
            for t in t {
                drive(t);
            }
        }
    }
}
