//! Dispatchers of each key length over the mock wire.
use crate::mock::*;
use postcard_rpc::header::VarHeader;
use postcard_rpc::server::{Sender, SpawnContext};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use std::task::Poll;

#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Ans {
    pub who: u8,
    pub what: u32,
}

#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub enum Shape {
    Dot,
    Line(u16),
    Box { w: u8, h: u8 },
}

/// Cannot be serialized when its field is odd.
#[derive(Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Fussy(pub u8);

impl Serialize for Fussy {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 % 2 == 1 {
            return Err(serde::ser::Error::custom("odd"));
        }
        s.serialize_newtype_struct("Fussy", &self.0)
    }
}

/// (handler, key bytes, sequence bytes, payload)
pub type Log = Arc<Mutex<Vec<(&'static str, Vec<u8>, Vec<u8>, String)>>>;

pub struct Ctx {
    pub log: Log,
    pub calls: u32,
}

#[derive(Clone)]
pub struct SCtx {
    pub log: Log,
}

thread_local! {
    /// contexts made for spawned handlers
    pub static CTXS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx {
        CTXS.with(|c| c.set(c.get() + 1));
        SCtx { log: self.log.clone() }
    }
}

pub fn rec(log: &Log, who: &'static str, h: &VarHeader, p: String) {
    log.lock().unwrap().push((who, var_bytes(&h.key), seq_bytes(&h.seq_no), p));
}

pub async fn pause() {
    let mut first = true;
    std::future::poll_fn(|cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

// what each endpoint answers
pub fn f_eb(r: &Ans) -> Ans {
    Ans { who: 1, what: r.what.wrapping_add(r.who as u32) }
}
pub fn f_ea(r: &u32) -> Ans {
    Ans { who: 2, what: !*r }
}
pub fn f_es(r: &Shape) -> u64 {
    match r {
        Shape::Dot => 300,
        Shape::Line(n) => *n as u64,
        Shape::Box { w, h } => *w as u64 * 256 + *h as u64,
    }
}
pub fn f_ef(r: &u8) -> Fussy {
    Fussy(*r)
}
pub fn f_q1(r: &Ans) -> Ans {
    Ans { who: 11, what: r.what }
}
pub fn f_q2(r: &Ans) -> Ans {
    Ans { who: 12, what: r.what }
}

pub fn eb(c: &mut Ctx, h: VarHeader, r: Ans) -> Ans {
    rec(&c.log, "eb", &h, format!("{r:?}"));
    c.calls += 1;
    f_eb(&r)
}
pub async fn ea(c: &mut Ctx, h: VarHeader, r: u32) -> Ans {
    pause().await;
    rec(&c.log, "ea", &h, format!("{r:?}"));
    c.calls += 1;
    f_ea(&r)
}
pub fn ef(c: &mut Ctx, h: VarHeader, r: u8) -> Fussy {
    rec(&c.log, "ef", &h, format!("{r:?}"));
    c.calls += 1;
    f_ef(&r)
}
pub fn q1(c: &mut Ctx, h: VarHeader, r: Ans) -> Ans {
    rec(&c.log, "q1", &h, format!("{r:?}"));
    f_q1(&r)
}
pub async fn q2(c: &mut Ctx, h: VarHeader, r: Ans) -> Ans {
    rec(&c.log, "q2", &h, format!("{r:?}"));
    pause().await;
    f_q2(&r)
}
pub fn tb(c: &mut Ctx, h: VarHeader, r: Ans, _o: &Sender<MTx>) {
    rec(&c.log, "tb", &h, format!("{r:?}"));
    c.calls += 1;
}
pub async fn ta(c: &mut Ctx, h: VarHeader, r: Shape, _o: &Sender<MTx>) {
    pause().await;
    rec(&c.log, "ta", &h, format!("{r:?}"));
    c.calls += 1;
}
pub async fn ts(c: SCtx, h: VarHeader, r: u16, _o: Sender<MTx>) {
    rec(&c.log, "ts", &h, format!("{r:?}"));
}
pub fn p1(c: &mut Ctx, h: VarHeader, r: Ans, _o: &Sender<MTx>) {
    rec(&c.log, "p1", &h, format!("{r:?}"));
}
pub async fn p2(c: &mut Ctx, h: VarHeader, r: Ans, _o: &Sender<MTx>) {
    rec(&c.log, "p2", &h, format!("{r:?}"));
}

macro_rules! device {
    ($m:ident, $q1:literal $q2:literal $p1:literal $p2:literal) => {
        pub mod $m {
            use super::*;
            use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Key, Topic, TopicDirection};

            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                | Eb | Ans | Ans | "1/eb" |
                | Ea | u32 | Ans | "1/ea" |
                | Es | Shape | u64 | "1/es" |
                | Ef | u8 | Fussy | "1/ef" |
                | Q1 | Ans | Ans | $q1 |
                | Q2 | Ans | Ans | $q2 |
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                | Tb | Ans | "1/tb" |
                | Ta | Shape | "1/ta" |
                | Ts | u16 | "1/ts" |
                | P1 | Ans | $p1 |
                | P2 | Ans | $p2 |
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                | To | Ans | "1/to" |
            }
            pub async fn es(c: SCtx, h: VarHeader, r: Shape, o: Sender<MTx>) {
                rec(&c.log, "es", &h, format!("{r:?}"));
                pause().await;
                let _ = o.reply::<Es>(h.seq_no, &f_es(&r)).await;
            }
            define_dispatch! {
                app: App;
                spawn_fn: m_spawn;
                tx_impl: MTx;
                spawn_impl: MSpawn;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind     | handler |
                    | ---------- | ----     | ------- |
                    | Eb         | blocking | eb      |
                    | Ea         | async    | ea      |
                    | Es         | spawn    | es      |
                    | Ef         | blocking | ef      |
                    | Q1         | blocking | q1      |
                    | Q2         | async    | q2      |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind     | handler |
                    | ------- | ----     | ------- |
                    | Tb      | blocking | tb      |
                    | Ta      | async    | ta      |
                    | Ts      | spawn    | ts      |
                    | P1      | blocking | p1      |
                    | P2      | async    | p2      |
                };
                topics_out: {
                    list: TOUT;
                };
            }
            pub fn keys() -> super::Keys {
                super::Keys {
                    req: [Eb::REQ_KEY, Ea::REQ_KEY, Es::REQ_KEY, Ef::REQ_KEY, Q1::REQ_KEY, Q2::REQ_KEY],
                    resp: [Eb::RESP_KEY, Ea::RESP_KEY, Es::RESP_KEY, Ef::RESP_KEY, Q1::RESP_KEY, Q2::RESP_KEY],
                    tin: [Tb::TOPIC_KEY, Ta::TOPIC_KEY, Ts::TOPIC_KEY, P1::TOPIC_KEY, P2::TOPIC_KEY],
                    tout: [To::TOPIC_KEY],
                }
            }
            pub fn app(log: &Log, sp: &MSpawn) -> App {
                App::new(Ctx { log: log.clone(), calls: 0 }, sp.clone())
            }
        }
    };
}

#[derive(Clone, Copy)]
pub struct Keys {
    pub req: [postcard_rpc::Key; 6],
    pub resp: [postcard_rpc::Key; 6],
    pub tin: [postcard_rpc::Key; 5],
    pub tout: [postcard_rpc::Key; 1],
}

device!(d1, "q1/a" "q1/b" "p1/a" "p1/b");
device!(d2, "q2/b" "q2/13" "p2/18" "p2/1d");
device!(d4, "q4/92" "q4/150" "p4/110" "p4/1d5");
device!(d8, "q8/52be" "q8/112b1" "p8/bca2" "p8/1529d");

pub const EP_NAMES: [&str; 6] = ["eb", "ea", "es", "ef", "q1", "q2"];
pub const TP_NAMES: [&str; 5] = ["tb", "ta", "ts", "p1", "p2"];

/// Payload as the handler sees it and the response's bytes (None: does not serialize).
pub fn ep_expect(i: usize, body: &[u8]) -> Option<(String, Option<Vec<u8>>)> {
    fn go<T: serde::de::DeserializeOwned + std::fmt::Debug, R: Serialize>(b: &[u8], f: fn(&T) -> R) -> Option<(String, Option<Vec<u8>>)> {
        let t: T = postcard::from_bytes(b).ok()?;
        Some((format!("{t:?}"), postcard::to_stdvec(&f(&t)).ok()))
    }
    match i {
        0 => go(body, f_eb),
        1 => go(body, f_ea),
        2 => go(body, f_es),
        3 => go(body, f_ef),
        4 => go(body, f_q1),
        _ => go(body, f_q2),
    }
}

pub fn tp_expect(i: usize, body: &[u8]) -> Option<String> {
    fn go<T: serde::de::DeserializeOwned + std::fmt::Debug>(b: &[u8]) -> Option<String> {
        Some(format!("{:?}", postcard::from_bytes::<T>(b).ok()?))
    }
    match i {
        0 | 3 | 4 => go::<Ans>(body),
        1 => go::<Shape>(body),
        _ => go::<u16>(body),
    }
}
