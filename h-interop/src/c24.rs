//! C24: a device built as firmware is (without `use-std`) and a host built with it, end to end.
use crate::common::*;
use postcard_rpc::header::VarSeq;
use postcard_rpc::host_client::{HostErr, SchemaReport};
use postcard_rpc::standard_icd as std_icd;
use postcard_rpc::{Endpoint, Topic};
use postcard_rpc_device as fwc;
use postcard_schema::schema::owned::OwnedNamedType;
use postcard_schema::schema::NamedType;
use postcard_schema::Schema;
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

pub mod types {
    use crate::common::Sh;
    use postcard_schema::Schema;
    use serde::{Deserialize, Serialize};

    #[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
    pub struct Ans {
        pub who: u8,
        pub what: u32,
    }
    #[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
    pub enum Shape {
        Dot,
        Line(u16),
        Box { w: u8, h: u8 },
    }
    /// Cannot be serialized when its field is odd.
    #[derive(Deserialize, Schema, Debug, PartialEq, Clone)]
    pub struct Fussy(pub u8);
    impl Serialize for Fussy {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            if self.0 % 2 == 1 {
                return Err(serde::ser::Error::custom("odd"));
            }
            s.serialize_newtype_struct("Fussy", &self.0)
        }
    }
    /// What handlers ran: name, argument, (width, value) of the sequence number
    pub type Runs = Sh<Vec<(&'static str, String, (usize, u32))>>;

    pub fn f_eb(r: &Ans) -> Ans {
        Ans { who: 1, what: r.what.wrapping_add(r.who as u32) }
    }
    pub fn f_ea(r: &u32) -> Ans {
        Ans { who: 2, what: !*r }
    }
    pub fn f_es(r: &Shape) -> u64 {
        match r {
            Shape::Dot => 300,
            Shape::Line(n) => *n as u64,
            Shape::Box { w, h } => *w as u64 * 256 + *h as u64,
        }
    }
    pub fn f_q1(r: &Ans) -> Ans {
        Ans { who: 11, what: r.what }
    }
    pub fn f_q2(r: &Ans) -> Ans {
        Ans { who: 12, what: r.what }
    }
}
use types::*;

/// the firmware build
mod fw {
    use postcard_rpc_device as prpc;
    pub mod icd {
        use postcard_rpc_device as prpc;
        include!("icd.rs");
    }
    fn as_log(s: &str) -> Box<str> {
        s.into()
    }
    include!("server.rs");
}
/// a server built with `use-std`
mod st {
    use postcard_rpc as prpc;
    pub mod icd {
        use postcard_rpc as prpc;
        include!("icd.rs");
    }
    fn as_log(s: &str) -> Box<String> {
        Box::new(s.into())
    }
    include!("server.rs");
}
use st::icd as host;

mod absent {
    use postcard_rpc::endpoints;
    endpoints! {
        list = EPS;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path |
        | ---------- | --------- | ---------- | ---- |
        | Gone       | u32       | u32        | "absent/xyzzy" |
    }
}

const OPS: usize = 14;
/// Values to send
const VALS: [u32; 2] = [0x0201, 0xfedc_ba98];

fn ans(v: u32) -> Ans {
    Ans { who: v as u8, what: v }
}
fn shape(v: u32) -> Shape {
    match v % 3 {
        0 => Shape::Dot,
        1 => Shape::Line(v as u16),
        _ => Shape::Box { w: v as u8, h: (v >> 8) as u8 },
    }
}

fn show<T: std::fmt::Debug>(r: Result<T, HostErr<std_icd::WireError>>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(HostErr::Wire(e)) => format!("Err({e:?})"),
        Err(HostErr::BadResponse) => "Bad".into(),
        Err(HostErr::Postcard(_)) => "Undecodable".into(),
        Err(HostErr::Closed) => "Closed".into(),
    }
}

/// What operation `op` with value `v` must give: result, handler run, To, Tx, log
struct Want {
    res: String,
    run: Option<(&'static str, String)>,
    to: Option<Ans>,
    tx: Option<Shape>,
    log: Option<String>,
}

fn want(op: usize, v: u32) -> Want {
    let (a, s) = (ans(v), shape(v));
    let ok = |x: &dyn std::fmt::Debug| format!("Ok({x:?})");
    let mut w = Want { res: "Ok(())".into(), run: None, to: None, tx: None, log: None };
    let (name, arg): (&'static str, &dyn std::fmt::Debug) = match op {
        0 => {
            w.res = ok(&f_eb(&a));
            ("eb", &a)
        }
        1 => {
            w.res = ok(&f_ea(&v));
            ("ea", &v)
        }
        2 => {
            w.res = ok(&f_es(&s));
            w.to = Some(Ans { who: 7, what: f_es(&s) as u32 });
            ("es", &s)
        }
        3 => {
            w.res = "Ok(Fussy(4))".into();
            ("ef", &4)
        }
        4 => {
            w.res = "Err(SerFailed)".into();
            ("ef", &5)
        }
        5 => {
            w.res = ok(&f_q1(&a));
            ("q1", &a)
        }
        6 => {
            w.res = ok(&f_q2(&a));
            ("q2", &a)
        }
        7 => {
            w.res = ok(&v);
            ("", &())
        }
        8 => {
            w.res = "Err(UnknownKey)".into();
            ("", &())
        }
        9 => ("tb", &a),
        10 => {
            w.tx = Some(s.clone());
            ("ta", &s)
        }
        11 => {
            w.log = Some(format!("ts {}", v as u16));
            w.run = Some(("ts", format!("{}", v as u16)));
            return w;
        }
        12 => ("p1", &a),
        _ => {
            w.log = Some("p2".into());
            ("p2", &a)
        }
    };
    if !name.is_empty() {
        w.run = Some((name, format!("{arg:?}")));
    }
    w
}

macro_rules! ops {
    ($f:ident, $m:ident) => {
        async fn $f(cl: &Client, op: usize, v: u32, n: u32) -> String {
            use host::$m::*;
            let p = |r: Result<(), _>| match r {
                Ok(()) => "Ok(())".to_string(),
                Err(postcard_rpc::host_client::IoClosed) => "Closed".into(),
            };
            let sq = VarSeq::Seq2(n as u16);
            match op {
                0 => show(cl.send_resp::<Eb>(&ans(v)).await),
                1 => show(cl.send_resp::<Ea>(&v).await),
                2 => show(cl.send_resp::<Es>(&shape(v)).await),
                3 => show(cl.send_resp::<Ef>(&4).await),
                4 => show(cl.send_resp::<Ef>(&5).await),
                5 => show(cl.send_resp::<Q1>(&ans(v)).await),
                6 => show(cl.send_resp::<Q2>(&ans(v)).await),
                7 => show(cl.send_resp::<std_icd::PingEndpoint>(&v).await),
                8 => show(cl.send_resp::<absent::Gone>(&v).await),
                9 => p(cl.publish::<Tb>(sq, &ans(v)).await),
                10 => p(cl.publish::<Ta>(sq, &shape(v)).await),
                11 => p(cl.publish::<Ts>(sq, &(v as u16)).await),
                12 => p(cl.publish::<P1>(sq, &ans(v)).await),
                _ => p(cl.publish::<P2>(sq, &ans(v)).await),
            }
        }
    };
}
ops!(op1, d1);
ops!(op2, d2);
ops!(op4, d4);
ops!(op8, d8);

async fn do_op(kn: usize, cl: &Client, op: usize, v: u32, n: u32) -> String {
    match kn {
        1 => op1(cl, op, v, n).await,
        2 => op2(cl, op, v, n).await,
        4 => op4(cl, op, v, n).await,
        _ => op8(cl, op, v, n).await,
    }
}

fn serve(firmware: bool, kn: usize, sim: &Sim, w: &Wire, l: &Runs) {
    let got = match (firmware, kn) {
        (true, 1) => fw::d1::serve(sim, w, l),
        (true, 2) => fw::d2::serve(sim, w, l),
        (true, 4) => fw::d4::serve(sim, w, l),
        (true, _) => fw::d8::serve(sim, w, l),
        (_, 1) => st::d1::serve(sim, w, l),
        (_, 2) => st::d2::serve(sim, w, l),
        (_, 4) => st::d4::serve(sim, w, l),
        _ => st::d8::serve(sim, w, l),
    };
    assert_eq!(got, kn, "the device's key length");
}

/// Tasks each perform a chosen sequence of operations against one device.
fn scenario(sim: &Sim, firmware: bool, kn: usize, sn: usize, tasks: &[usize]) {
    let w = Wire::default();
    let runs: Runs = Sh::new(vec![]);
    serve(firmware, kn, sim, &w, &runs);
    let cl = client(&w, sn, 4, Duration::from_millis(10));
    let tos = Sh::new(vec![]);
    let txs = Sh::new(vec![]);
    let logs = Sh::new(vec![]);
    let ready = Flag::default();
    let (to2, tx2, lg2, cl2, rd2) = (tos.clone(), txs.clone(), logs.clone(), cl.clone(), ready.clone());
    sim.spawn("listener", async move {
        use host::d1::{To, Tx};
        let mut a = cl2.subscribe_multi::<To>(16).await.unwrap();
        let mut b = cl2.subscribe_exclusive::<Tx>(16).await.unwrap();
        let mut c = cl2.subscribe_multi::<std_icd::LoggingTopic>(16).await.unwrap();
        drop(cl2);
        vp_rt::spawn("to", async move {
            while let Ok(m) = a.recv().await {
                to2.with(|t| t.push(m));
            }
        });
        vp_rt::spawn("tx", async move {
            while let Some(m) = b.recv().await {
                tx2.with(|t| t.push(m));
            }
        });
        vp_rt::spawn("logs", async move {
            while let Ok(m) = c.recv().await {
                lg2.with(|t| t.push(m));
            }
        });
        rd2.set();
    });
    let results: Sh<Vec<(usize, u32, String)>> = Sh::new(vec![]);
    let mut ids = vec![];
    for (t, n) in tasks.iter().enumerate() {
        let (cl, ready, results, n) = (cl.clone(), ready.clone(), results.clone(), *n);
        let plan: Vec<(usize, u32)> =
            (0..n).map(|i| (vp_rt::choose(OPS, "op"), VALS[(t + i) % 2].wrapping_add((t * 5 + i) as u32))).collect();
        vp_rt::log(|| format!("task {t}: {plan:?}"));
        ids.push(sim.spawn(format!("task{t}"), async move {
            ready.wait().await;
            for (i, (op, v)) in plan.into_iter().enumerate() {
                let r = do_op(kn, &cl, op, v, (t * 16 + i) as u32).await;
                vp_rt::log(|| format!("task {t}: {op} {v} -> {r}"));
                results.with(|l| l.push((op, v, r)));
            }
        }));
    }
    sim.run();
    for id in ids {
        assert!(sim.is_done(id), "an operation never returns although the device answered");
    }
    let (mut w_run, mut w_to, mut w_tx, mut w_log) = (vec![], vec![], vec![], vec![]);
    let results = results.get();
    assert_eq!(results.len(), tasks.iter().sum::<usize>());
    for (op, v, r) in &results {
        let x = want(*op, *v);
        assert_eq!(*r, x.res, "operation {op} with {v:#x}");
        w_run.extend(x.run);
        w_to.extend(x.to);
        w_tx.extend(x.tx);
        w_log.extend(x.log);
    }
    let got = runs.get();
    let s = |mut v: Vec<String>| {
        v.sort();
        v
    };
    assert_eq!(
        s(got.iter().map(|g| format!("{} {}", g.0, g.1)).collect()),
        s(w_run.iter().map(|g| format!("{} {}", g.0, g.1)).collect()),
        "handlers that ran"
    );
    for g in &got {
        let width = if g.0.starts_with('t') || g.0.starts_with('p') { 2 } else { sn };
        assert_eq!(g.2 .0, width, "width of the sequence number seen by {}", g.0);
    }
    let d = |v: &[String]| s(v.to_vec());
    let f = |v: Vec<Ans>| v.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>();
    let h = |v: Vec<Shape>| v.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>();
    assert_eq!(d(&f(tos.get())), d(&f(w_to)), "messages on the outgoing topic");
    assert_eq!(d(&h(txs.get())), d(&h(w_tx)), "messages on the second outgoing topic");
    assert_eq!(d(&logs.get()), d(&w_log), "log messages");
    if tasks.len() == 1 {
        // one after another: the device's length is used once it is known
        let frames = w.frames();
        let mut known = false;
        for (f, (op, ..)) in frames.iter().zip(&results) {
            let (hd, _) = decode(f).expect("a frame with a valid header");
            assert_eq!(hd.key.len(), if known { kn } else { 8 }, "key length on the wire");
            known |= *op <= 8;
        }
        assert_eq!(frames.len(), results.len());
    }
    vp_rt::outcome(&format!("{results:?} {got:?}"));
    vp_rt::note(|| format!("{results:?}"));
}

// ---------------------------------------------------------------------------
// schema discovery
// ---------------------------------------------------------------------------

fn check_report(kn: usize, r: &SchemaReport) {
    macro_rules! t {
        ($m:ident) => {{
            use host::$m::*;
            let e = |p: &str, a: postcard_rpc::Key, b: postcard_rpc::Key, x: &'static NamedType, y: &'static NamedType| {
                (p.to_string(), a.to_bytes(), b.to_bytes(), OwnedNamedType::from(x), OwnedNamedType::from(y))
            };
            macro_rules! ep {
                ($t:ty) => {
                    e(<$t>::PATH, <$t>::REQ_KEY, <$t>::RESP_KEY, <<$t as Endpoint>::Request>::SCHEMA, <<$t as Endpoint>::Response>::SCHEMA)
                };
            }
            macro_rules! tp {
                ($t:ty) => {
                    (<$t>::PATH.to_string(), <$t>::TOPIC_KEY.to_bytes(), OwnedNamedType::from(<<$t as Topic>::Message>::SCHEMA))
                };
            }
            (
                vec![ep!(std_icd::PingEndpoint), ep!(std_icd::GetAllSchemasEndpoint), ep!(Eb), ep!(Ea), ep!(Es), ep!(Ef), ep!(Q1), ep!(Q2)],
                vec![tp!(Tb), tp!(Ta), tp!(Ts), tp!(P1), tp!(P2)],
                vec![tp!(To), tp!(Tx)],
            )
        }};
    }
    let (mut eps, mut tin, tout) = match kn {
        1 => t!(d1),
        2 => t!(d2),
        4 => t!(d4),
        _ => t!(d8),
    };
    let mut g: Vec<_> = r
        .endpoints
        .iter()
        .map(|e| (e.path.clone(), e.req_key.to_bytes(), e.resp_key.to_bytes(), e.req_ty.clone(), e.resp_ty.clone()))
        .collect();
    g.sort_by(|a, b| a.0.cmp(&b.0));
    eps.sort_by(|a, b| a.0.cmp(&b.0));
    assert_eq!(g, eps, "endpoints of the report");
    let mut g: Vec<_> = r.topics_in.iter().map(|e| (e.path.clone(), e.key.to_bytes(), e.ty.clone())).collect();
    g.sort_by(|a, b| a.0.cmp(&b.0));
    tin.sort_by(|a, b| a.0.cmp(&b.0));
    assert_eq!(g, tin, "incoming topics of the report");
    for x in &tout {
        assert!(
            r.topics_out.iter().any(|e| (e.path.clone(), e.key.to_bytes(), e.ty.clone()) == *x),
            "the outgoing topic {} is not in the report",
            x.0
        );
    }
    let built_in = [std_icd::LoggingTopic::PATH, std_icd::GetAllSchemaDataTopic::PATH];
    for p in built_in {
        assert!(r.topics_out.iter().any(|e| e.path == p), "the built-in topic {p} is not in the report");
    }
    assert_eq!(r.topics_out.len(), tout.len() + 2, "outgoing topics");
    for t in [Ans::SCHEMA, Shape::SCHEMA, Fussy::SCHEMA, std_icd::SchemaTotals::SCHEMA] {
        assert!(r.types.contains(&OwnedNamedType::from(t)), "the type {} is not in the report", t.name);
    }
}

fn schemas(sim: &Sim, firmware: bool, kn: usize, sn: usize) {
    let w = Wire::default();
    let runs: Runs = Sh::new(vec![]);
    serve(firmware, kn, sim, &w, &runs);
    let cl = client(&w, sn, 4, Duration::from_millis(10));
    let (c2, c3) = (cl.clone(), cl.clone());
    let a = sim.spawn("asker", async move {
        match c2.get_schema_report().await {
            Ok(r) => check_report(kn, &r),
            Err(e) => panic!("nothing was lost, but asking for the schema gives {e:?}"),
        }
    });
    let op = vp_rt::choose(OPS, "op");
    let b = sim.spawn("other", async move {
        let r = do_op(kn, &c3, op, VALS[0], 3).await;
        assert_eq!(r, want(op, VALS[0]).res);
    });
    sim.run();
    assert!(sim.is_done(a) && sim.is_done(b), "never returns");
    vp_rt::outcome(&format!("{op}"));
}

// ---------------------------------------------------------------------------
// the built-in messages
// ---------------------------------------------------------------------------

fn built_in(r: &mut Report) {
    r.cases("built-in keys and messages are the same in both builds", |c| {
        macro_rules! same {
            ($what:expr, $a:expr, $b:expr) => {{
                c.hit(key($what.as_ref()));
                c.at(|| format!("{}", $what));
                assert_eq!($a, $b, "{}", $what);
            }};
        }
        use fwc::standard_icd as d;
        use std_icd as h;
        same!("error key", fwc::Key::to_bytes(&d::ERROR_KEY), h::ERROR_KEY.to_bytes());
        same!("error path", d::ERROR_PATH, h::ERROR_PATH);
        macro_rules! ep {
            ($e:ident) => {
                same!(concat!(stringify!($e), " path"), <d::$e as fwc::Endpoint>::PATH, <h::$e as Endpoint>::PATH);
                same!(concat!(stringify!($e), " request key"), <d::$e as fwc::Endpoint>::REQ_KEY.to_bytes(), <h::$e as Endpoint>::REQ_KEY.to_bytes());
                same!(concat!(stringify!($e), " response key"), <d::$e as fwc::Endpoint>::RESP_KEY.to_bytes(), <h::$e as Endpoint>::RESP_KEY.to_bytes());
            };
        }
        ep!(PingEndpoint);
        ep!(GetAllSchemasEndpoint);
        macro_rules! tp {
            ($e:ident) => {
                same!(concat!(stringify!($e), " path"), <d::$e as fwc::Topic>::PATH, <h::$e as Topic>::PATH);
                same!(concat!(stringify!($e), " key"), <d::$e as fwc::Topic>::TOPIC_KEY.to_bytes(), <h::$e as Topic>::TOPIC_KEY.to_bytes());
            };
        }
        tp!(GetAllSchemaDataTopic);
        tp!(LoggingTopic);
        macro_rules! lists {
            ($($m:ident)*) => {$(
                let x: Vec<_> = fw::icd::$m::EPS.endpoints.iter().map(|e| (e.0, e.1.to_bytes(), e.2.to_bytes())).collect();
                let y: Vec<_> = host::$m::EPS.endpoints.iter().map(|e| (e.0, e.1.to_bytes(), e.2.to_bytes())).collect();
                same!(concat!(stringify!($m), " endpoints"), x, y);
                let x: Vec<_> = fw::icd::$m::TIN.topics.iter().chain(fw::icd::$m::TOUT.topics).map(|e| (e.0, e.1.to_bytes())).collect();
                let y: Vec<_> = host::$m::TIN.topics.iter().chain(host::$m::TOUT.topics).map(|e| (e.0, e.1.to_bytes())).collect();
                same!(concat!(stringify!($m), " topics"), x, y);
            )*};
        }
        lists!(d1 d2 d4 d8);

        // error replies
        let errs: Vec<(d::WireError, h::WireError)> = vec![
            (d::WireError::FrameTooLong(d::FrameTooLong { len: 70000, max: 1 }), h::WireError::FrameTooLong(h::FrameTooLong { len: 70000, max: 1 })),
            (d::WireError::FrameTooShort(d::FrameTooShort { len: 300 }), h::WireError::FrameTooShort(h::FrameTooShort { len: 300 })),
            (d::WireError::DeserFailed, h::WireError::DeserFailed),
            (d::WireError::SerFailed, h::WireError::SerFailed),
            (d::WireError::UnknownKey, h::WireError::UnknownKey),
            (d::WireError::FailedToSpawn, h::WireError::FailedToSpawn),
            (d::WireError::KeyTooSmall, h::WireError::KeyTooSmall),
        ];
        for (x, y) in &errs {
            let b = postcard::to_stdvec(x).unwrap();
            same!(format!("{x:?}"), postcard::from_bytes::<h::WireError>(&b).ok().as_ref(), Some(y));
            // and, without the help of the code under test, as documented: the index, then the fields
            let ix = errs.iter().position(|e| e.0 == *x).unwrap() as u8;
            assert_eq!(b[0], ix, "number of {x:?} on the wire");
        }

        // schema data
        use fwc::TopicDirection as DD;
        use postcard_rpc::TopicDirection as HD;
        let k1 = unsafe { fwc::Key::from_bytes([1, 2, 3, 4, 5, 6, 7, 8]) };
        let k2 = unsafe { fwc::Key::from_bytes([9, 8, 7, 6, 5, 4, 3, 2]) };
        let (j1, j2) = (unsafe { postcard_rpc::Key::from_bytes(k1.to_bytes()) }, unsafe { postcard_rpc::Key::from_bytes(k2.to_bytes()) });
        let mut sd: Vec<(d::SchemaData<'static>, h::OwnedSchemaData)> = vec![];
        for p in ["", "a/b"] {
            sd.push((
                d::SchemaData::Endpoint { path: p, request_key: k1, response_key: k2 },
                h::OwnedSchemaData::Endpoint { path: p.into(), request_key: j1, response_key: j2 },
            ));
            for (x, y) in [(DD::ToServer, HD::ToServer), (DD::ToClient, HD::ToClient)] {
                sd.push((
                    d::SchemaData::Topic { path: p, key: k2, direction: x },
                    h::OwnedSchemaData::Topic { path: p.into(), key: j2, direction: y },
                ));
            }
        }
        for t in all_types() {
            sd.push((d::SchemaData::Type(t), h::OwnedSchemaData::Type(t.into())));
        }
        for (x, y) in &sd {
            let b = postcard::to_stdvec(x).unwrap();
            same!(format!("{y:?}"), postcard::from_bytes::<h::OwnedSchemaData>(&b).ok().as_ref(), Some(y));
            assert_eq!(b, postcard::to_stdvec(y).unwrap(), "encoding of {y:?}");
        }
        let t = d::SchemaTotals { types_sent: 1, endpoints_sent: 2, topics_in_sent: 300, topics_out_sent: 4, errors: 70000 };
        let b = postcard::to_stdvec(&t).unwrap();
        same!(
            "totals",
            postcard::from_bytes::<h::SchemaTotals>(&b).ok(),
            Some(h::SchemaTotals { types_sent: 1, endpoints_sent: 2, topics_in_sent: 300, topics_out_sent: 4, errors: 70000 })
        );

        // headers, all shapes
        for kn in [1usize, 2, 4, 8] {
            for sn in [1usize, 2, 4] {
                for v in [0u32, 1, 0x80, 0x1234, 0xffff_fffe] {
                    let h = Hdr { key: reduce([1, 2, 4, 8, 16, 32, 64, 128], kn), seq: seq_n(v, sn) };
                    let f = encode(&h, b"xy");
                    let (a, ra) = fwc::header::VarHeader::take_from_slice(&f).unwrap();
                    let mut buf = [0u8; 32];
                    let n = a.write_to_slice(&mut buf).unwrap().0.len();
                    same!(format!("header {kn} {sn} {v:x}"), (&buf[..n], ra), (&f[..f.len() - 2], &b"xy"[..]));
                    let (b, _) = postcard_rpc::header::VarHeader::take_from_slice(&f).unwrap();
                    assert_eq!(b.write_to_vec(), f[..f.len() - 2]);
                }
            }
        }
    });
}

fn all_types() -> Vec<&'static NamedType> {
    use std::collections::BTreeMap;
    #[derive(Schema)]
    #[allow(dead_code)]
    struct Unit;
    #[derive(Schema)]
    #[allow(dead_code)]
    struct Tup(u8, i128);
    #[derive(Schema)]
    #[allow(dead_code)]
    enum E {
        A,
        B(u16),
        C(u8, Unit),
        D { x: Option<Tup>, y: char },
    }
    #[derive(Schema)]
    #[allow(dead_code)]
    struct S {
        m: BTreeMap<String, Vec<E>>,
        n: [f32; 2],
        o: (bool, (), f64),
    }
    vec![
        <()>::SCHEMA, bool::SCHEMA, u8::SCHEMA, i8::SCHEMA, u16::SCHEMA, i16::SCHEMA, u32::SCHEMA, i32::SCHEMA, u64::SCHEMA,
        i64::SCHEMA, u128::SCHEMA, i128::SCHEMA, f32::SCHEMA, f64::SCHEMA, char::SCHEMA, String::SCHEMA, str::SCHEMA,
        Vec::<u8>::SCHEMA, Unit::SCHEMA, Tup::SCHEMA, E::SCHEMA, S::SCHEMA, Option::<S>::SCHEMA, Result::<E, ()>::SCHEMA,
        Fussy::SCHEMA, std_icd::OwnedSchemaData::SCHEMA, <fwc::standard_icd::SchemaData<'static>>::SCHEMA, NamedType::SCHEMA,
        std_icd::WireError::SCHEMA, postcard_rpc::Key::SCHEMA,
    ]
}

pub fn run(a: Args) {
    let mut r = Report::new(a, "model_checking", "distinct (operations, results, handler runs)");
    let th = r.thorough();
    built_in(&mut r);
    for firmware in [true, false] {
        let b = if firmware { "firmware build" } else { "std build" };
        for kn in [1, 2, 4, 8] {
            for sn in [1, 2, 4] {
                let mut go = |what: &str, p: u8, d: u8, tasks: &[usize]| {
                    let mut c = Config::new(&format!("{b}, {kn}-byte keys, {sn}-byte sequence numbers: {what}"), p, d).delays();
                    c.time_cap = Duration::from_secs(if th { 300 } else { 60 });
                    r.explore(c, |s: &Sim| scenario(s, firmware, kn, sn, tasks));
                };
                go("every pair of operations in sequence", 0, 0, &[2]);
                if th && firmware {
                    go("every triple of operations in sequence", 0, 0, &[3]);
                }
                if firmware && (th || sn == 4 || kn == 4) {
                    go("two tasks, every pair of operations", if th { 2 } else { 1 }, 0, &[1, 1]);
                }
                if th && firmware {
                    go("two tasks, two and one operations", 2, 0, &[2, 1]);
                    go("three tasks", 1, 0, &[1, 1, 1]);
                }
                let c = Config::new(&format!("{b}, {kn}-byte keys, {sn}-byte sequence numbers: schema discovery beside an operation"), if th { 2 } else { 1 }, 0).delays();
                r.explore(c, |s: &Sim| schemas(s, firmware, kn, sn));
            }
        }
    }
    r.assume("the wire between host and device is reliable here (faults are the subject of C13, C14 to C20)");
    r.finish()
}

fn key(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
