//! C20: schema discovery, real server to real client.
use crate::common::*;
use crate::mock::{seq_bytes, var_bytes};
use crate::oracle::{prim, reach};
use postcard_rpc::header::{VarHeader, VarKeyKind};
use postcard_rpc::host_client::{SchemaError, SchemaReport};
use postcard_rpc::server::{
    AsWireRxErrorKind, AsWireTxErrorKind, Dispatch, Server, SpawnContext, WireRx, WireRxErrorKind, WireSpawn, WireTx,
    WireTxErrorKind,
};
use postcard_rpc::standard_icd::*;
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Key, Topic, TopicDirection};
use postcard_schema::schema::owned::{OwnedDataModelType as O, OwnedDataModelVariant as OV, OwnedNamedType, OwnedNamedValue};
use postcard_schema::{schema::NamedType as T, Schema};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

// ---------------------------------------------------------------------------
// the server's wire: the fate of every frame is chosen
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fate {
    Ok,
    /// reported as sent, never arrives
    Lost,
    /// sending fails
    Fails,
    /// arrives cut short
    Cut,
    /// arrives after a pause longer than the client's patience
    Late,
    /// arrives, but the device is told that sending failed
    Denied,
}
const FATES: [Fate; 5] = [Fate::Ok, Fate::Lost, Fate::Fails, Fate::Cut, Fate::Late];
/// used in addition: what arrives is complete, what the device says is not
const DENIALS: [Fate; 3] = [Fate::Ok, Fate::Denied, Fate::Lost];

/// How the device sends: which fates its frames can have, pause after each frame
#[derive(Clone, Copy)]
pub struct How {
    denials: bool,
    pace: Duration,
}
impl How {
    const PLAIN: How = How { denials: false, pace: Duration::ZERO };
}

#[derive(Clone)]
pub struct STx {
    w: Wire,
    tot: Sh<Vec<SchemaTotals>>,
    /// fates of the frames so far, true: this is a reply (totals)
    log: Sh<Vec<(Fate, bool)>>,
    n: usize,
    how: How,
}
#[derive(Debug)]
pub struct SErr(bool);
impl AsWireTxErrorKind for SErr {
    fn as_kind(&self) -> WireTxErrorKind {
        WireTxErrorKind::Other
    }
}
impl AsWireRxErrorKind for SErr {
    fn as_kind(&self) -> WireRxErrorKind {
        WireRxErrorKind::ConnectionClosed
    }
}
impl STx {
    async fn push(&self, mut f: Vec<u8>) -> Result<(), SErr> {
        let reply = decode(&f).unwrap().0.key == key_n(GetAllSchemasEndpoint::RESP_KEY, self.n);
        let fate = if self.how.denials {
            DENIALS[vp_rt::deviate(if reply { 1 } else { 3 }, "fate")]
        } else {
            FATES[vp_rt::deviate(if reply { 3 } else { 5 }, "fate")]
        };
        vp_rt::log(|| format!("server frame {f:02x?}: {fate:?}"));
        self.log.with(|l| l.push((fate, reply)));
        if reply {
            let t: SchemaTotals = postcard::from_bytes(decode(&f).unwrap().1).unwrap();
            self.tot.with(|v| v.push(t));
        }
        match fate {
            Fate::Ok => self.w.push(f),
            Fate::Lost => {}
            Fate::Fails => return Err(SErr(false)),
            Fate::Cut => {
                f.pop();
                self.w.push(f)
            }
            Fate::Late => {
                vp_rt::sleep(Duration::from_millis(250)).await;
                self.w.push(f)
            }
            Fate::Denied => {
                self.w.push(f);
                vp_rt::yield_now().await;
                return Err(SErr(false));
            }
        }
        if self.how.pace.is_zero() {
            vp_rt::yield_now().await;
        } else {
            vp_rt::sleep(self.how.pace).await;
        }
        Ok(())
    }
}
impl WireTx for STx {
    type Error = SErr;
    async fn send<X: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &X) -> Result<(), SErr> {
        let h = Hdr { key: var_bytes(&hdr.key), seq: seq_bytes(&hdr.seq_no) };
        self.push(encode(&h, &postcard::to_stdvec(msg).map_err(|_| SErr(false))?)).await
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), SErr> {
        self.push(buf.to_vec()).await
    }
    async fn send_log_str(&self, _k: VarKeyKind, _s: &str) -> Result<(), SErr> {
        Ok(())
    }
    async fn send_log_fmt<'a>(&self, _k: VarKeyKind, _a: std::fmt::Arguments<'a>) -> Result<(), SErr> {
        Ok(())
    }
}

pub struct SRx(Wire);
impl WireRx for SRx {
    type Error = SErr;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], SErr> {
        let f = self.0.next().await;
        buf[..f.len()].copy_from_slice(&f);
        Ok(&mut buf[..f.len()])
    }
}

#[derive(Clone)]
pub struct SSp;
impl WireSpawn for SSp {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
#[allow(unused)]
fn s_spawn<F: std::future::Future<Output = ()> + 'static>(_s: &SSp, _f: F) -> Result<(), ()> {
    Err(())
}
pub struct Ctx;
impl SpawnContext for Ctx {
    type SpawnCtxt = ();
    fn spawn_ctxt(&mut self) {}
}

// ---------------------------------------------------------------------------
// devices
// ---------------------------------------------------------------------------

macro_rules! ty {
    ($($i:item)*) => { $(#[derive(Serialize, Deserialize, Schema)] #[allow(dead_code)] $i)* };
}
ty! {
    pub struct Unit;
    pub struct Leaf { x: u8 }
    pub struct LeafTwin { x: u8 }
    pub struct Deep { a: Option<Vec<(Leaf, Unit)>> }
    pub struct Inner { v: [Unit; 2], w: Leaf2 }
    pub struct Leaf2(u16, i32);
    pub enum En { U, N(NewInner), T(Leaf, TInner), S { f: SInner, g: Option<u8> } }
    pub struct NewInner { n: Leaf2 }
    pub struct TInner { t: Leaf4 }
    pub struct Leaf4 { q: String }
    pub struct SInner { m: BTreeMap<u8, Result<Leaf5, ()>> }
    pub struct Leaf5(f64);
}
type VecDeep = Vec<Deep>;
type Bytes = Vec<u8>;
type OptUnit = Option<Unit>;
type Tup = (Leaf, u8, Unit);
type Arr = [Inner; 3];
type OptEn = Option<En>;

struct Want {
    eps: Vec<(&'static str, Key, Key, &'static T, &'static T)>,
    tins: Vec<(&'static str, Key, &'static T)>,
    touts: Vec<(&'static str, Key, &'static T)>,
}

macro_rules! device {
    ($m:ident; eps: $($e:ident $rq:tt $rs:tt $ep:literal),*; tins: $($t:ident $tm:tt $tp:literal),*; touts: $($o:ident $om:tt $op:literal),*;) => {
        mod $m {
            use super::*;
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                $(| $e | $rq | $rs | $ep |)*
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $t | $tm | $tp |)*
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $o | $om | $op |)*
            }
            define_dispatch! {
                app: App; spawn_fn: s_spawn; tx_impl: STx; spawn_impl: SSp; context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                };
                topics_out: { list: TOUT; };
            }
            pub fn want() -> Want {
                Want {
                    eps: vec![
                        ("postcard-rpc/ping", PingEndpoint::REQ_KEY, PingEndpoint::RESP_KEY, u32::SCHEMA, u32::SCHEMA),
                        ("postcard-rpc/schemas/get", GetAllSchemasEndpoint::REQ_KEY, GetAllSchemasEndpoint::RESP_KEY, <()>::SCHEMA, SchemaTotals::SCHEMA),
                        $(($ep, Key::for_path::<$rq>($ep), Key::for_path::<$rs>($ep), <$rq>::SCHEMA, <$rs>::SCHEMA)),*
                    ],
                    tins: vec![$(($tp, Key::for_path::<$tm>($tp), <$tm>::SCHEMA)),*],
                    touts: vec![
                        ("postcard-rpc/schema/data", GetAllSchemaDataTopic::TOPIC_KEY, OwnedSchemaData::SCHEMA),
                        ("postcard-rpc/logging", LoggingTopic::TOPIC_KEY, String::SCHEMA),
                        $(($op, Key::for_path::<$om>($op), <$om>::SCHEMA)),*
                    ],
                }
            }
            pub fn serve(w: Wire, log: Sh<Vec<(Fate, bool)>>, tot: Sh<Vec<SchemaTotals>>, how: How) -> (impl std::future::Future<Output = ()>, usize) {
                let app = App::new(Ctx, SSp);
                let kl = app.min_key_len();
                let n = kk_len(kl);
                let mut srv = Server::new(STx { w: w.clone(), tot, log, n, how }, SRx(w), vec![0u8; 64], app, kl);
                (async move { let _ = srv.run().await; }, n)
            }
        }
    };
}

device! { bare; eps: ; tins: ; touts: ; }
device! { plain; eps: A u8 u16 "a", B i8 i16 "b"; tins: C u32 "a", D bool "a"; touts: E u64 "a", F f32 "c"; }
device! { prims; eps: A u128 i128 "p", B char f64 "p", C String () "p", D i32 i64 "p", E Bytes u8 "q"; tins: F bool "p", G Bytes "p"; touts: H u16 "p", I OptUnit "p"; }
device! { deep; eps: A VecDeep Tup "d/1", B Tup () "d/2"; tins: C Arr "d/1"; touts: E Arr "d/1", F Deep "d/2"; }
device! { enums; eps: A OptEn En "e", B Leaf5 SInner "e"; tins: C En "t"; touts: D Leaf4 "t"; }
device! { twins; eps: A Leaf LeafTwin "x", B LeafTwin Leaf "y"; tins: C Leaf "z"; touts: D LeafTwin "z"; }
device! { same_path; eps: A u8 Leaf "s"; tins: C Unit "s", D u16 "s"; touts: E Unit "s", F u32 "s"; }
mod n1 {
    use super::*;
    ty! { pub struct Same { x: u8 } }
}
mod n2 {
    use super::*;
    ty! { pub struct Same { x: u16, y: Unit } }
}
type S1 = n1::Same;
type S2 = n2::Same;
device! { names; eps: A S1 S1 "n/1", B S2 S2 "n/1", C S1 S2 "n/2", D S2 S1 "n/2"; tins: E S1 "", F S2 ""; touts: G S2 "", H S1 ""; }
device! { big;
    eps: G0 u8 u16 "big/0", G1 u8 u16 "big/1", G2 u8 u16 "big/2", G3 u8 u16 "big/3", G4 u8 u16 "big/4", G5 u8 u16 "big/5", G6 u8 u16 "big/6", G7 u8 u16 "big/7", G8 u8 u16 "big/8", G9 u8 u16 "big/9", G10 u8 u16 "big/10", G11 u8 u16 "big/11", G12 u8 u16 "big/12", G13 u8 u16 "big/13", G14 u8 u16 "big/14", G15 u8 u16 "big/15", G16 u8 u16 "big/16", G17 u8 u16 "big/17", G18 u8 u16 "big/18", G19 u8 u16 "big/19", G20 u8 u16 "big/20", G21 u8 u16 "big/21", G22 u8 u16 "big/22", G23 u8 u16 "big/23", G24 u8 u16 "big/24", G25 u8 u16 "big/25", G26 u8 u16 "big/26", G27 u8 u16 "big/27", G28 u8 u16 "big/28", G29 u8 u16 "big/29";
    tins: H0 Leaf "big/0", H1 Leaf "big/1", H2 Leaf "big/2", H3 Leaf "big/3", H4 Leaf "big/4", H5 Leaf "big/5", H6 Leaf "big/6", H7 Leaf "big/7", H8 Leaf "big/8", H9 Leaf "big/9", H10 Leaf "big/10", H11 Leaf "big/11", H12 Leaf "big/12", H13 Leaf "big/13", H14 Leaf "big/14", H15 Leaf "big/15", H16 Leaf "big/16", H17 Leaf "big/17", H18 Leaf "big/18", H19 Leaf "big/19";
    touts: I0 Unit "big/0", I1 Unit "big/1", I2 Unit "big/2", I3 Unit "big/3", I4 Unit "big/4", I5 Unit "big/5", I6 Unit "big/6", I7 Unit "big/7", I8 Unit "big/8", I9 Unit "big/9", I10 Unit "big/10", I11 Unit "big/11", I12 Unit "big/12", I13 Unit "big/13", I14 Unit "big/14", I15 Unit "big/15", I16 Unit "big/16", I17 Unit "big/17", I18 Unit "big/18", I19 Unit "big/19";
}

/// A device with several hundred of everything, made at run time.
fn huge() -> (Want, postcard_rpc::DeviceMap) {
    use postcard_schema::schema::{DataModelType as D, NamedValue};
    fn keep<X>(x: X) -> &'static X {
        Box::leak(Box::new(x))
    }
    let st = |s: String| -> &'static str { s.leak() };
    let tys: Vec<&'static T> = (0..300)
        .map(|i| {
            let f: &'static NamedValue = keep(NamedValue { name: st(format!("f{i}")), ty: u8::SCHEMA });
            let f: &'static [&'static NamedValue] = vec![f].leak();
            &*keep(T { name: st(format!("T{i}")), ty: keep(D::Struct(f)) })
        })
        .collect();
    let key = |p: &str, t: &'static T| Key::for_owned_schema_path(p, &t.into());
    let mut w = Want { eps: vec![], tins: vec![], touts: vec![] };
    for i in 0..290 {
        let (p, a, b) = (st(format!("h/{i}")), tys[i], tys[i + 10]);
        w.eps.push((p, key(p, a), key(p, b), a, b));
    }
    for i in 0..270 {
        let p = st(format!("h/{i}"));
        w.tins.push((p, key(p, tys[i + 1]), tys[i + 1]));
    }
    for i in 0..280 {
        let p = st(format!("h/{i}"));
        w.touts.push((p, key(p, tys[i + 2]), tys[i + 2]));
    }
    let map = postcard_rpc::DeviceMap {
        types: tys.leak(),
        endpoints: w.eps.iter().map(|e| (e.0, e.1, e.2)).collect::<Vec<_>>().leak(),
        topics_in: w.tins.iter().map(|e| (e.0, e.1)).collect::<Vec<_>>().leak(),
        topics_out: w.touts.iter().map(|e| (e.0, e.1)).collect::<Vec<_>>().leak(),
        min_key_len: VarKeyKind::Key8,
    };
    (w, map)
}
static HUGE: std::sync::OnceLock<postcard_rpc::DeviceMap> = std::sync::OnceLock::new();
fn serve_huge(w: Wire, log: Sh<Vec<(Fate, bool)>>, tot: Sh<Vec<SchemaTotals>>, how: How, sim: &Sim) -> usize {
    let s = postcard_rpc::server::Sender::new(STx { w: w.clone(), tot, log, n: 8, how }, VarKeyKind::Key8);
    sim.spawn("server", async move {
        loop {
            let f = w.next().await;
            let (h, _) = VarHeader::take_from_slice(&f).unwrap();
            let _ = s.send_all_schemas(&h, HUGE.get().unwrap()).await;
        }
    });
    8
}

// ---------------------------------------------------------------------------

/// The type without the names of types (keys do not carry those).
fn bare_val(v: &OwnedNamedValue) -> String {
    format!("{}: {}", v.name, bare_ty(&v.ty))
}
fn bare_ty(t: &OwnedNamedType) -> String {
    let l = |l: &[OwnedNamedType]| l.iter().map(bare_ty).collect::<Vec<_>>().join(", ");
    let f = |l: &[OwnedNamedValue]| l.iter().map(bare_val).collect::<Vec<_>>().join(", ");
    match &t.ty {
        O::Option(a) => format!("Option({})", bare_ty(a)),
        O::NewtypeStruct(a) => format!("Newtype({})", bare_ty(a)),
        O::Seq(a) => format!("Seq({})", bare_ty(a)),
        O::Tuple(a) => format!("Tuple({})", l(a)),
        O::TupleStruct(a) => format!("TupleStruct({})", l(a)),
        O::Map { key, val } => format!("Map({}, {})", bare_ty(key), bare_ty(val)),
        O::Struct(a) => format!("Struct({})", f(a)),
        O::Enum(vs) => {
            let v: Vec<String> = vs
                .iter()
                .map(|v| {
                    let b = match &v.ty {
                        OV::UnitVariant => String::new(),
                        OV::NewtypeVariant(a) => format!("N({})", bare_ty(a)),
                        OV::TupleVariant(a) => format!("T({})", l(a)),
                        OV::StructVariant(a) => format!("S({})", f(a)),
                    };
                    format!("{} {b}", v.name)
                })
                .collect();
            format!("Enum({})", v.join(", "))
        }
        o => format!("{o:?}"),
    }
}

/// What the report must be, computed once per device: sorted descriptions.
struct Truth {
    eps: Vec<String>,
    tins: Vec<String>,
    touts: Vec<String>,
    types: HashSet<OwnedNamedType>,
    frames: usize,
}

fn ep_s(p: &str, a: &Key, b: &Key, x: &OwnedNamedType, y: &OwnedNamedType) -> String {
    format!("{p} {:02x?} {:02x?} {} -> {}", a.to_bytes(), b.to_bytes(), bare_ty(x), bare_ty(y))
}
fn tp_s(p: &str, k: &Key, x: &OwnedNamedType) -> String {
    format!("{p} {:02x?} {}", k.to_bytes(), bare_ty(x))
}

fn truth(w: Want) -> Truth {
    let mut tys = vec![];
    for e in &w.eps {
        reach(e.3, &mut tys);
        reach(e.4, &mut tys);
    }
    for t in w.tins.iter().chain(&w.touts) {
        reach(t.2, &mut tys);
    }
    let s = |mut v: Vec<String>| {
        v.sort();
        v
    };
    Truth {
        eps: s(w.eps.iter().map(|e| ep_s(e.0, &e.1, &e.2, &e.3.into(), &e.4.into())).collect()),
        tins: s(w.tins.iter().map(|t| tp_s(t.0, &t.1, &t.2.into())).collect()),
        touts: s(w.touts.iter().map(|t| tp_s(t.0, &t.1, &t.2.into())).collect()),
        frames: tys.len() + w.eps.len() + w.tins.len() + w.touts.len(),
        types: tys.into_iter().map(OwnedNamedType::from).collect(),
    }
}

fn is_builtin(t: &OwnedNamedType) -> bool {
    use postcard_schema::schema::DataModelType as D;
    let _ = prim(&D::Bool);
    matches!(
        t.ty,
        O::Bool | O::I8 | O::U8 | O::I16 | O::I32 | O::I64 | O::I128 | O::U16 | O::U32 | O::U64 | O::U128 | O::Usize
            | O::Isize | O::F32 | O::F64 | O::Char | O::String | O::ByteArray | O::Unit | O::Schema
    ) || *t == OwnedNamedType::from(<Vec<u8> as Schema>::SCHEMA)
}

fn check_report(t: &Truth, r: &SchemaReport) {
    let s = |mut v: Vec<String>| {
        v.sort();
        v
    };
    let eps = s(r.endpoints.iter().map(|e| ep_s(&e.path, &e.req_key, &e.resp_key, &e.req_ty, &e.resp_ty)).collect());
    assert_eq!(eps, t.eps, "endpoints of the report");
    let tp = |l: &[postcard_rpc::host_client::TopicReport]| s(l.iter().map(|e| tp_s(&e.path, &e.key, &e.ty)).collect());
    assert_eq!(tp(&r.topics_in), t.tins, "incoming topics of the report");
    assert_eq!(tp(&r.topics_out), t.touts, "outgoing topics of the report");
    for x in &t.types {
        assert!(r.types.contains(x), "the report claims to be complete, but lacks the type {x}");
    }
    for x in &r.types {
        assert!(is_builtin(x) || t.types.contains(x), "the report has the type {x}, which the device does not use");
    }
}

type Serve = fn(Wire, Sh<Vec<(Fate, bool)>>, Sh<Vec<SchemaTotals>>, How, &Sim) -> usize;

fn scenario(sim: &Sim, t: &Truth, serve: Serve, askers: usize, calls: usize, lag: bool, how: How) {
    let w = Wire::default();
    let log = Sh::new(vec![]);
    let tot = Sh::new(vec![]);
    serve(w.clone(), log.clone(), tot.clone(), how, sim);
    let cl = client(&w, 4, 8, Duration::ZERO);
    let res: Sh<Vec<String>> = Sh::new(vec![]);
    let ids: Vec<usize> = (0..askers)
        .map(|i| {
            let (cl, res) = (cl.clone(), res.clone());
            let t: &'static Truth = unsafe { &*(t as *const Truth) };
            sim.spawn(format!("asker{i}"), async move {
                for _ in 0..calls {
                    let s = match cl.get_schema_report().await {
                        Ok(r) => {
                            check_report(t, &r);
                            "complete".to_string()
                        }
                        Err(SchemaError::LostData) => "lost".into(),
                        Err(SchemaError::TaskError) => "task".into(),
                        Err(SchemaError::InvalidReportData) => "invalid".into(),
                        Err(SchemaError::Comms(e)) => format!("comms {e:?}"),
                    };
                    res.with(|r| r.push(s));
                }
            })
        })
        .collect();
    sim.run();
    let log = log.get();
    // what the device says about what it sent
    let mut failed = 0;
    let mut tots = tot.get().into_iter();
    for (f, reply) in &log {
        if *reply {
            let x = tots.next().unwrap();
            let said = (x.types_sent as usize, x.endpoints_sent as usize, x.topics_in_sent as usize, x.topics_out_sent as usize, x.errors as usize);
            assert_eq!(said, (t.types.len(), t.eps.len(), t.tins.len(), t.touts.len(), failed), "totals (types, endpoints, topics in, topics out, failed sends) in the device's reply");
            failed = 0;
        } else if matches!(f, Fate::Fails | Fate::Denied) {
            failed += 1;
        }
    }
    let bad_reply = log.iter().any(|l| l.1 && l.0 != Fate::Ok);
    let all_ok = log.iter().all(|l| l.0 == Fate::Ok);
    if !bad_reply {
        for id in ids {
            assert!(sim.is_done(id), "the report request hangs although the totals arrived");
        }
    }
    let res = res.get();
    if all_ok && askers == 1 && !lag {
        assert!(res.iter().all(|r| r == "complete"), "nothing was lost, yet: {res:?}");
    }
    if log.iter().any(|l| matches!(l.0, Fate::Fails | Fate::Denied) && !l.1) && askers == 1 && calls == 1 {
        assert!(res.iter().all(|r| r != "complete"), "sending failed, yet the report is said to be complete");
    }
    vp_rt::outcome(&format!("{res:?} {log:?}"));
    vp_rt::note(|| format!("fates {:?}: {res:?}", log.iter().enumerate().filter(|l| l.1 .0 != Fate::Ok).map(|l| (l.0, l.1 .0)).collect::<Vec<_>>()));
}

pub fn run(a: Args) {
    let mut r = Report::new(a, "model_checking", "distinct (fates of all frames, results of the requests)");
    let th = r.thorough();
    macro_rules! dev {
        ($m:ident) => {
            (
                stringify!($m),
                truth($m::want()),
                (|w, l, tot, how, sim| {
                    let (f, n) = $m::serve(w, l, tot, how);
                    sim.spawn("server", f);
                    n
                }) as Serve,
            )
        };
    }
    let devs = [dev!(bare), dev!(plain), dev!(prims), dev!(deep), dev!(enums), dev!(twins), dev!(same_path), dev!(names), dev!(big)];
    for (name, t, serve) in &devs {
        let big = *name == "big";
        let mut go = |what: String, p: u8, d: u8, askers: usize, calls: usize, how: How| {
            let mut c = Config::new(&format!("{name}: {what}"), p, d).delays();
            c.time_cap = Duration::from_secs(if th { 600 } else { 60 });
            r.explore(c, |s: &Sim| scenario(s, t, *serve, askers, calls, big && how.pace.is_zero(), how));
        };
        let d = match (big, th) {
            (true, false) => 1,
            (false, true) => if t.frames <= 16 { 4 } else { 3 },
            (false, false) if t.frames <= 16 => 3,
            _ => 2,
        };
        go(format!("{} frames, every combination of {d} bad fates", t.frames), 0, d, 1, 1, How::PLAIN);
        go("sent but reported as failed, or lost".into(), 0, if big { 1 } else { 2 }, 1, 1, How { denials: true, ..How::PLAIN });
        for ms in [1, 20, 60] {
            go(format!("{ms} ms per frame"), 0, if th && !big { 1 } else { 0 }, 1, 1, How { pace: Duration::from_millis(ms), ..How::PLAIN });
        }
        if !big {
            go("asked twice in a row, one bad fate".into(), 0, if th { 2 } else { 1 }, 1, 2, How::PLAIN);
        }
        if matches!(*name, "bare" | "same_path") {
            go("schedules, one bad fate".into(), 1, 1, 1, 1, How::PLAIN);
            go("two askers at once, schedules and one bad fate".into(), if th { 2 } else { 1 }, 1, 2, 1, How::PLAIN);
        }
    }
    let (want, map) = huge();
    let _ = HUGE.set(map);
    let t = truth(want);
    let mut c = Config::new(&format!("{} frames, hundreds of each kind", t.frames), 0, 0).delays();
    c.max_steps = 10_000_000;
    r.explore(c, |s: &Sim| {
        scenario(s, &t, serve_huge, 1, 1, false, How { pace: Duration::from_millis(1), ..How::PLAIN })
    });
    r.assume("a frame is delivered unchanged, cut short, late or not at all (the wires have checksums); keys do not carry type names, so equally shaped types may stand for one another");
    r.finish()
}
