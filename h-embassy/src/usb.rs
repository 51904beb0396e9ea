//! A USB peripheral as embassy-usb drivers present it: one packet per read or write.

use embassy_sync::blocking_mutex::raw::RawMutex;
use embassy_usb_driver::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::task::{Poll, Waker};
use std::time::Duration;

pub const MPS: usize = 64;
const LONG: Duration = Duration::from_secs(100_000);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pkt {
    Data(Vec<u8>),
    /// the endpoint is disabled while the device waits here
    Disabled,
}

#[derive(Default)]
pub struct St {
    /// packets the host took from the IN endpoint
    pub packets: Vec<Vec<u8>>,
    /// the explorer decides what becomes of each write
    pub faulty: bool,
    /// faults can only hit the first that many writes
    pub fault_until: Option<usize>,
    /// every write takes that long
    pub pace: Duration,
    pub writes: usize,
    pub faults: usize,
    pub writing: bool,
    /// packets the host sends
    pub out: VecDeque<Pkt>,
    /// reads wait once before they complete
    pub slow_read: bool,
    /// a packet that does not fit the buffer of a read is lost / stays
    pub overflow_drops: bool,
    pub reads: usize,
    waker: Option<Waker>,
}

thread_local! {
    static ST: RefCell<St> = RefCell::new(St::default());
    static GRAVE: RefCell<Vec<Box<dyn FnOnce()>>> = const { RefCell::new(vec![]) };
}

pub fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}

/// Host sends a transfer.
pub fn transfer(d: &[u8]) {
    let mut v: Vec<Pkt> = d.chunks(MPS).map(|c| Pkt::Data(c.to_vec())).collect();
    if d.len() % MPS == 0 {
        v.push(Pkt::Data(vec![]));
    }
    host(v)
}

pub fn host(p: impl IntoIterator<Item = Pkt>) {
    let w = st(|s| {
        s.out.extend(p);
        s.waker.take()
    });
    if let Some(w) = w {
        w.wake()
    }
}

pub struct VpMutex;
unsafe impl RawMutex for VpMutex {
    const INIT: Self = VpMutex;
    fn lock<R>(&self, f: impl FnOnce() -> R) -> R {
        vp_rt::point("mutex");
        f()
    }
}

pub struct Drv;
pub struct Ep(EndpointInfo);
pub struct Ctl;
pub struct NoBus;

fn info(ty: EndpointType, mps: u16, dir: Direction) -> EndpointInfo {
    EndpointInfo { addr: EndpointAddress::from_parts(1, dir), ep_type: ty, max_packet_size: mps, interval_ms: 0 }
}

impl Endpoint for Ep {
    fn info(&self) -> &EndpointInfo {
        &self.0
    }
    async fn wait_enabled(&mut self) {}
}

struct Writing;
impl Writing {
    fn new() -> Writing {
        assert!(!st(|s| std::mem::replace(&mut s.writing, true)), "two writes at once on one endpoint");
        Writing
    }
}
impl Drop for Writing {
    fn drop(&mut self) {
        st(|s| s.writing = false)
    }
}

impl EndpointIn for Ep {
    async fn write(&mut self, buf: &[u8]) -> Result<(), EndpointError> {
        vp_rt::point("usb.write");
        let _g = Writing::new();
        if buf.len() > self.0.max_packet_size as usize {
            return Err(EndpointError::BufferOverflow);
        }
        let (ask, pace) = st(|s| {
            s.writes += 1;
            (s.faulty && s.fault_until.is_none_or(|n| s.writes <= n), s.pace)
        });
        if pace > Duration::ZERO {
            vp_rt::sleep(pace).await;
        }
        let act = if ask { vp_rt::deviate(4, "packet") } else { 0 };
        if act != 0 {
            st(|s| s.faults += 1);
        }
        let put = || {
            vp_rt::log(|| format!("usb: packet of {} bytes", buf.len()));
            st(|s| s.packets.push(buf.to_vec()))
        };
        match act {
            0 => put(),
            1 => {
                // the host does not poll
                vp_rt::log(|| "usb: packet not fetched".into());
                vp_rt::sleep(LONG).await;
                put();
            }
            2 => {
                // fetched, but the peripheral does not report it
                put();
                vp_rt::log(|| "usb: not acknowledged".into());
                vp_rt::sleep(LONG).await;
            }
            _ => {
                vp_rt::log(|| "usb: disabled".into());
                return Err(EndpointError::Disabled);
            }
        }
        Ok(())
    }
}

impl EndpointOut for Ep {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, EndpointError> {
        st(|s| s.reads += 1);
        let mps = self.0.max_packet_size as usize;
        if st(|s| s.slow_read) {
            vp_rt::yield_now().await;
        }
        std::future::poll_fn(|cx| {
            st(|s| match s.out.front() {
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
                Some(Pkt::Disabled) => {
                    s.out.pop_front();
                    Poll::Ready(Err(EndpointError::Disabled))
                }
                Some(Pkt::Data(d)) if d.len() > buf.len() => {
                    if s.overflow_drops {
                        s.out.pop_front();
                    }
                    Poll::Ready(Err(EndpointError::BufferOverflow))
                }
                Some(Pkt::Data(d)) => {
                    let n = d.len();
                    assert!(n <= mps, "the host cannot send packets of {n} bytes to an endpoint of {mps}");
                    buf[..n].copy_from_slice(d);
                    s.out.pop_front();
                    Poll::Ready(Ok(n))
                }
            })
        })
        .await
    }
}

impl ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize {
        64
    }
    async fn setup(&mut self) -> [u8; 8] {
        std::future::pending().await
    }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, EndpointError> {
        Err(EndpointError::Disabled)
    }
    async fn data_in(&mut self, _: &[u8], _: bool, _: bool) -> Result<(), EndpointError> {
        Err(EndpointError::Disabled)
    }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _: u8) {}
}

impl Bus for NoBus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> Event {
        std::future::pending().await
    }
    fn endpoint_set_enabled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_set_stalled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), Unsupported> {
        Err(Unsupported)
    }
}

impl Driver<'static> for Drv {
    type EndpointOut = Ep;
    type EndpointIn = Ep;
    type ControlPipe = Ctl;
    type Bus = NoBus;
    fn alloc_endpoint_out(&mut self, t: EndpointType, m: u16, _: u8) -> Result<Ep, EndpointAllocError> {
        Ok(Ep(info(t, m, Direction::Out)))
    }
    fn alloc_endpoint_in(&mut self, t: EndpointType, m: u16, _: u8) -> Result<Ep, EndpointAllocError> {
        Ok(Ep(info(t, m, Direction::In)))
    }
    fn start(self, _: u16) -> (NoBus, Ctl) {
        (NoBus, Ctl)
    }
}

// ---------------------------------------------------------------------------
// the two transports
// ---------------------------------------------------------------------------

/// Something that lives until the next execution on this thread.
fn keep<T: 'static>(b: Box<T>) -> &'static mut T {
    let p = Box::into_raw(b);
    GRAVE.with(|g| g.borrow_mut().push(Box::new(move || drop(unsafe { Box::from_raw(p) }))));
    unsafe { &mut *p }
}

fn fresh() {
    let g = GRAVE.with(|g| std::mem::take(&mut *g.borrow_mut()));
    g.into_iter().for_each(|f| f());
    st(|s| *s = St::default());
}

macro_rules! version {
    ($m:ident, $imp:ident, $usb:ident) => {
        pub mod $m {
            use super::*;
            use postcard_rpc::server::impls::$imp::dispatch_impl::*;
            pub type Tx = WireTxImpl<VpMutex, Drv>;
            pub type Rx = WireRxImpl<Drv>;
            pub fn new(tx_len: usize, build: bool) -> (Tx, Rx) {
                fresh();
                let storage: &'static WireStorage<VpMutex, Drv> = keep(Box::new(WireStorage::new()));
                let buf: &'static mut Vec<u8> = keep(Box::new(vec![0xee; tx_len]));
                let config = $usb::Config::new(0x1209, 1);
                if build {
                    let (_, tx, rx) = storage.init(Drv, config, &mut buf[..]);
                    (tx, rx)
                } else {
                    let (b, tx, rx) = storage.init_without_build(Drv, config, &mut buf[..]);
                    drop(b.build());
                    (tx, rx)
                }
            }
        }
    };
}
/// The way that can be taken only once per process.
macro_rules! once {
    ($f:ident, $imp:ident, $usb:ident, $m:ident) => {
        pub fn $f(tx_len: usize) -> ($m::Tx, $m::Rx) {
            use postcard_rpc::server::impls::$imp::dispatch_impl::*;
            fresh();
            let storage: &'static WireStorage<VpMutex, Drv> = Box::leak(Box::new(WireStorage::new()));
            let buf: &'static mut Vec<u8> = Box::leak(Box::new(vec![0xee; tx_len]));
            let (_, tx, rx) = storage.init_poststation(Drv, $usb::Config::new(0x1209, 1), &mut buf[..]);
            (tx, rx)
        }
    };
}
once!(poststation3, embassy_usb_v0_3, embassy_usb_3, v3);
once!(poststation4, embassy_usb_v0_4, embassy_usb_4, v4);
version!(v3, embassy_usb_v0_3, embassy_usb_3);
version!(v4, embassy_usb_v0_4, embassy_usb_4);

// ---------------------------------------------------------------------------
// platform: time and the executor's pender
// ---------------------------------------------------------------------------

struct Clock;
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 {
        if vp_rt::active() {
            vp_rt::now().as_micros() as u64
        } else {
            0
        }
    }
    fn schedule_wake(&self, at: u64, w: &Waker) {
        if vp_rt::active() {
            vp_rt::timer(Duration::from_micros(at), w)
        }
    }
}
embassy_time_driver::time_driver_impl!(static CLOCK: Clock = Clock);

#[export_name = "__pender"]
fn pender(_: *mut ()) {}
