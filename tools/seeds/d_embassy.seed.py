E3='server/impls/embassy_usb_v0_3.rs'; E4='server/impls/embassy_usb_v0_4.rs'
EMB=dict(features='["use-std","embassy-usb-0_3-server","embassy-usb-0_4-server"]',extra='''embassy-usb-driver = "0.1"
embassy-usb-3 = { package = "embassy-usb", version = "0.3" }
embassy-usb-4 = { package = "embassy-usb", version = "0.4" }
embassy-sync = "0.6"
embassy-time-driver = "0.2"
critical-section = { version = "1.1", features = ["std"] }
''')
MAIN_E=r'''use embassy_usb_driver::*;
use embassy_sync::blocking_mutex::raw::CriticalSectionRawMutex as Raw;
use postcard_rpc::{header::*, server::{WireRx, WireRxErrorKind, WireTx, WireTxErrorKind}, standard_icd::LoggingTopic, Key, Topic};
use std::{collections::VecDeque, sync::Mutex, task::Waker, time::{Duration, Instant}};
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fate { Stall, Disabled, Slow(u64) }
pub static IN: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
pub static FATES: Mutex<VecDeque<Option<Fate>>> = Mutex::new(VecDeque::new());
pub static OUT: Mutex<VecDeque<Vec<u8>>> = Mutex::new(VecDeque::new());
pub struct Drv;
pub struct Ep(EndpointInfo);
pub struct Ctl;
pub struct NoBus;
impl Endpoint for Ep {
    fn info(&self) -> &EndpointInfo { &self.0 }
    async fn wait_enabled(&mut self) {}
}
impl EndpointIn for Ep {
    async fn write(&mut self, buf: &[u8]) -> Result<(), EndpointError> {
        assert!(buf.len() <= 64);
        let f = FATES.lock().unwrap().pop_front().flatten();
        match f {
            None => {}
            Some(Fate::Stall) => std::future::pending().await,
            Some(Fate::Disabled) => return Err(EndpointError::Disabled),
            Some(Fate::Slow(ms)) => tokio::time::sleep(Duration::from_millis(ms)).await,
        }
        IN.lock().unwrap().push(buf.to_vec());
        Ok(())
    }
}
impl EndpointOut for Ep {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, EndpointError> {
        let p = OUT.lock().unwrap().pop_front().ok_or(EndpointError::Disabled)?;
        buf.get_mut(..p.len()).ok_or(EndpointError::BufferOverflow)?.copy_from_slice(&p);
        Ok(p.len())
    }
}
impl ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize { 64 }
    async fn setup(&mut self) -> [u8; 8] { std::future::pending().await }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, EndpointError> { Err(EndpointError::Disabled) }
    async fn data_in(&mut self, _: &[u8], _: bool, _: bool) -> Result<(), EndpointError> { Err(EndpointError::Disabled) }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _: u8) {}
}
impl Bus for NoBus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> Event { std::future::pending().await }
    fn endpoint_set_enabled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_set_stalled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: EndpointAddress) -> bool { false }
    async fn remote_wakeup(&mut self) -> Result<(), Unsupported> { Err(Unsupported) }
}
fn ep(t: EndpointType, m: u16, d: Direction) -> Ep {
    Ep(EndpointInfo { addr: EndpointAddress::from_parts(1, d), ep_type: t, max_packet_size: m, interval_ms: 0 })
}
impl Driver<'static> for Drv {
    type EndpointOut = Ep;
    type EndpointIn = Ep;
    type ControlPipe = Ctl;
    type Bus = NoBus;
    fn alloc_endpoint_out(&mut self, t: EndpointType, m: u16, _: u8) -> Result<Ep, EndpointAllocError> { Ok(ep(t, m, Direction::Out)) }
    fn alloc_endpoint_in(&mut self, t: EndpointType, m: u16, _: u8) -> Result<Ep, EndpointAllocError> { Ok(ep(t, m, Direction::In)) }
    fn start(self, _: u16) -> (NoBus, Ctl) { (NoBus, Ctl) }
}
struct Clock;
fn start() -> Instant {
    static S: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *S.get_or_init(Instant::now)
}
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 { start().elapsed().as_micros() as u64 }
    fn schedule_wake(&self, at: u64, w: &Waker) {
        let w = w.clone();
        std::thread::spawn(move || {
            let at = start() + Duration::from_micros(at + 100);
            std::thread::sleep(at.saturating_duration_since(Instant::now()));
            w.wake();
        });
    }
}
embassy_time_driver::time_driver_impl!(static CLOCK: Clock = Clock);
#[export_name = "__pender"]
fn pender(_: *mut ()) {}
macro_rules! version {
    ($m:ident, $imp:ident, $usb:ident) => {
        pub mod $m {
            use super::*;
            use postcard_rpc::server::impls::$imp::dispatch_impl::*;
            pub fn new(tx_len: usize) -> (WireTxImpl<Raw, Drv>, WireRxImpl<Drv>) {
                let storage: &'static WireStorage<Raw, Drv> = Box::leak(Box::new(WireStorage::new()));
                let (_, tx, rx) = storage.init(Drv, $usb::Config::new(0x1209, 1), vec![0xee; tx_len].leak());
                (tx, rx)
            }
        }
    };
}
version!(v3, embassy_usb_v0_3, embassy_usb_3);
version!(v4, embassy_usb_v0_4, embassy_usb_4);
/// The transfers the host has seen so far.
pub fn transfers() -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for p in IN.lock().unwrap().drain(..) {
        out.last_mut().unwrap().extend_from_slice(&p);
        if p.len() < 64 { out.push(vec![]) }
    }
    assert!(out.pop().unwrap().is_empty(), "unterminated transfer");
    out
}
pub fn hdr(kind: VarKeyKind, seq: VarSeq) -> VarHeader {
    let mut key = VarKey::Key8(Key::for_path::<u8>("x"));
    key.shrink_to(kind);
    VarHeader { key, seq_no: seq }
}
'''
PENDING=("""        if *pending_frame && ep_in.write(&[]).await.is_err() {
            return Err(WireTxErrorKind::ConnectionClosed);
        }
        *pending_frame = true;
""","""        if core::mem::replace(pending_frame, true) && ep_in.write(&[]).await.is_err() {
            return Err(WireTxErrorKind::ConnectionClosed);
        }
""")
seed('c14-flushed-too-early','C14',[E3,E4],[
("""        *pending_frame = false;
        Ok(())
    };""","""        Ok(())
    };"""),
("""            if ep_in.write(ch).await.is_err() {
                return Err(WireTxErrorKind::ConnectionClosed);
            }
        }
""","""            if ep_in.write(ch).await.is_err() {
                return Err(WireTxErrorKind::ConnectionClosed);
            }
        }
        // All data is with the host now, nothing to make up for later
        *pending_frame = false;

""")],
"a frame whose length is a multiple of 64, and the empty packet that ends it is not taken by the host in time",
"the next frame is appended to that frame: the host sees one transfer made of two frames",
MAIN_E+r'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (tx, _rx) = v4::new(256);
    let a = vec![1u8; 64];
    let b = vec![2u8; 10];
    FATES.lock().unwrap().extend([None, Some(Fate::Stall)]);
    assert!(matches!(tx.send_raw(&a).await, Err(WireTxErrorKind::Timeout)));
    tx.send_raw(&b).await.ok().unwrap();
    assert_eq!(transfers(), vec![a, b]);
}
''',**EMB)
seed('c14-pending-only-after-timeout','C14',E4,[
("""        *pending_frame = true;

        // write in""","""
        // write in"""),
("""        Either::Second(()) => Err(WireTxErrorKind::Timeout),""","""        Either::Second(()) => {
            // Whatever made it out has to be terminated before the next message
            *pending_frame = true;
            Err(WireTxErrorKind::Timeout)
        }"""),
("""        *pending_frame = false;
        Ok(())
    };

    match""","""        Ok(())
    };

    match"""),
("""        Either::First(res) => res,""","""        Either::First(res) => {
            *pending_frame = res.is_err();
            res
        }"""),
],
"the future of a send is dropped (a select! in the application, say) after its first packet",
"the next frame is appended to the packets of the abandoned one",
MAIN_E+r'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (tx, _rx) = v4::new(256);
    tx.set_timeout_ms_per_frame(10_000).await;
    let a = vec![1u8; 100];
    let b = vec![2u8; 10];
    FATES.lock().unwrap().extend([None, Some(Fate::Stall)]);
    assert!(tokio::time::timeout(Duration::from_millis(50), tx.send_raw(&a)).await.is_err());
    tx.send_raw(&b).await.ok().unwrap();
    let t = transfers();
    assert_eq!(t, vec![a[..64].to_vec(), b]);
}
''',**EMB)
seed('c14-raw-through-small-buffer','C14',E3,[
("""        let mut inner = self.inner.lock().await;
        let EUsbWireTxInner {
            ep_in,
            pending_frame,
            ..
        }: &mut EUsbWireTxInner<D> = &mut inner;
        send_all::<D>(ep_in, buf, pending_frame).await""","""        let mut inner = self.inner.lock().await;
        let EUsbWireTxInner {
            ep_in,
            pending_frame,
            tx_buf,
            ..
        }: &mut EUsbWireTxInner<D> = &mut inner;
        // Send from our own buffer where possible, it is suitably aligned for DMA
        let part = buf.len().min(tx_buf.len());
        tx_buf[..part].copy_from_slice(&buf[..part]);
        send_all::<D>(ep_in, &tx_buf[..part], pending_frame).await""")],
"a raw frame larger than the transmit buffer",
"only its beginning is sent, as if it were the whole frame, and success is reported",
MAIN_E+r'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (tx, _rx) = v3::new(100);
    let a = vec![1u8; 130];
    if tx.send_raw(&a).await.is_ok() {
        assert_eq!(transfers(), vec![a]);
    }
}
''',**EMB)
seed('c15-long-frame-tail-kept','C15',[E3,E4],[
("""                Ok(64) => {}
                Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),""","""                Ok(n) if n >= 64 => {}
                // Nothing but the end marker is left
                Ok(0) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
                Ok(_) => {}""")],
"a transfer larger than the receive buffer that does not end with an empty packet, followed by another transfer",
"the next transfer is swallowed together with the oversized one",
MAIN_E+r'''fn host(d: &[u8]) {
    let mut o = OUT.lock().unwrap();
    o.extend(d.chunks(64).map(|c| c.to_vec()));
    if d.len() % 64 == 0 { o.push_back(vec![]) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (_tx, mut rx) = v4::new(100);
    let mut buf = [0u8; 128];
    host(&[1; 210]);
    host(&[2; 20]);
    host(&[3; 20]);
    assert!(matches!(rx.receive(&mut buf).await, Err(WireRxErrorKind::ReceivedMessageTooLarge)));
    assert!(matches!(rx.receive(&mut buf).await, Ok(f) if f == &[2; 20]));
    assert!(matches!(rx.receive(&mut buf).await, Ok(f) if f == &[3; 20]));
}
''',**EMB)
seed('c15-empty-packet-skipped','C15',E4,[
("""            if n != 64 {
                // We now""","""            if n != 64 && (n != 0 || window.len() == buflen) {
                // We now"""),
],
"a transfer whose length is a multiple of 64 and fits the buffer, followed by another",
"the two transfers are delivered as one frame",
MAIN_E+r'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (_tx, mut rx) = v4::new(100);
    let mut buf = [0u8; 256];
    OUT.lock().unwrap().extend([vec![1; 64], vec![], vec![2; 5]]);
    assert!(matches!(rx.receive(&mut buf).await, Ok(f) if f == &[1; 64]));
    assert!(matches!(rx.receive(&mut buf).await, Ok(f) if f == &[2; 5]));
}
''',**EMB)
seed('c16-length-continuation-lost','C16',[E3,E4],[
("""        if len_used.len() != len_field.len() {
            if let Some(b) = len_used.last_mut() {
                *b |= 0x80;
            }
        }""","""        if len_used.len() == 1 && len_field.len() != 1 {
            if let Some(b) = len_used.last_mut() {
                *b |= 0x80;
            }
        }""")],
"a formatted log message of at least 128 bytes with a transmit buffer of more than 16 KiB",
"the message no longer decodes to the text that was logged",
MAIN_E+r'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (tx, _rx) = v4::new(20_000);
    tx.send_log_fmt(VarKeyKind::Key8, format_args!("answer {}{:200}", 42, "")).await.ok().unwrap();
    let t = transfers();
    let (h, b) = VarHeader::take_from_slice(&t[0]).unwrap();
    assert_eq!(h.key, VarKey::Key8(LoggingTopic::TOPIC_KEY));
    assert!(matches!(postcard::take_from_bytes::<String>(b), Ok((s, rest)) if s == format!("answer 42{:200}", "") && rest.is_empty()));
}
''',**EMB)
