//! Real interface declarations through the macros: their lists and device map against the oracle.
#![allow(dead_code)]
#[path = "../oracle.rs"]
mod oracle;

use oracle::*;
use postcard_rpc::server::impls::test_channels::dispatch_impl::*;
use postcard_rpc::server::impls::test_channels::ChannelWireSpawn;
use postcard_rpc::server::SpawnContext;
use postcard_rpc::standard_icd::*;
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Key, Topic, TopicDirection};
use postcard_schema::{schema::NamedType as T, Schema};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub struct Ctx;
impl SpawnContext for Ctx {
    type SpawnCtxt = ();
    fn spawn_ctxt(&mut self) {}
}

macro_rules! ty {
    ($($i:item)*) => { $(#[derive(Serialize, Deserialize, Schema)] $i)* };
}

ty! {
    pub struct Unit;
    pub struct Leaf { x: u8 }
    pub struct Deep { a: Option<Vec<(Leaf, Unit)>> }
    pub struct New(Leaf2);
    pub struct Leaf2(u16, i32);
    pub struct Inner { v: [Leaf3; 2] }
    pub struct Leaf3;
    pub enum En { U, N(NewInner), T(Leaf, TInner), S { f: SInner, g: Option<u8> } }
    pub struct NewInner { n: NewInner2 }
    pub struct NewInner2(Leaf4, u8);
    pub struct Leaf4 { q: String }
    pub struct TInner { t: Leaf5 }
    pub struct Leaf5;
    pub struct SInner { s: Leaf6 }
    pub struct Leaf6 { m: BTreeMap<Leaf7, Leaf8> }
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    pub struct Leaf7;
    pub struct Leaf8 { z: Result<Leaf9, Unit> }
    pub struct Leaf9 { o: Option<Option<Unit>> }
    pub enum Only { A(Leaf), B(Leaf) }
}
/// Same names as above, other contents.
mod twin {
    use super::*;
    ty! {
        pub struct Leaf { x: u16 }
        pub struct Unit {}
        pub enum Only { A(super::Leaf), C(super::Leaf) }
        pub enum Only2 { A { x: Leaf }, B }
    }
}
type VecDeep = Vec<Deep>;
type OptOnly = Option<Only>;
type Tup = (En, twin::Only2, Leaf);
type Arr = [Inner; 3];
type TwinLeaf = twin::Leaf;
type TwinUnit = twin::Unit;
type TwinOnly = twin::Only;

macro_rules! iface {
    ($m:ident; eps: $($e:ident $rq:tt $rs:tt),*; tins: $($t:ident $tm:tt),*; touts: $($o:ident $om:tt),*;) => {
        mod $m {
            use super::*;
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                $(| $e | $rq | $rs | "real" |)*
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $t | $tm | "in" |)*
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $o | $om | "out" |)*
            }
            define_dispatch! {
                app: App; spawn_fn: spawn_fn; tx_impl: WireTxImpl; spawn_impl: WireSpawnImpl; context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                };
                topics_out: { list: TOUT; };
            }
            pub fn check() {
                let name = stringify!($m);
                let of = |l: &[&'static T]| {
                    let mut v: Vec<&'static T> = vec![];
                    for t in l {
                        reach(t, &mut v);
                    }
                    v
                };
                let mut eps = of(&[$(<$rq>::SCHEMA, <$rs>::SCHEMA),*]);
                for t in of(&[<SchemaTotals>::SCHEMA]) {
                    reach(t, &mut eps);
                }
                let tins = of(&[$(<$tm>::SCHEMA),*]);
                let touts = of(&[<OwnedSchemaData>::SCHEMA, $(<$om>::SCHEMA),*]);
                same("endpoint types", &|| name.into(), EPS.types, &eps);
                same("incoming topic types", &|| name.into(), TIN.types, &tins);
                same("outgoing topic types", &|| name.into(), TOUT.types, &touts);
                let mut all = eps.clone();
                for t in tins.iter().chain(&touts) {
                    reach(t, &mut all);
                }
                let app = App::new(Ctx, ChannelWireSpawn);
                same("device types", &|| name.into(), app.device_map.types, &all);
                let weps: Vec<(&str, Key, Key)> = vec![
                    (PingEndpoint::PATH, PingEndpoint::REQ_KEY, PingEndpoint::RESP_KEY),
                    (GetAllSchemasEndpoint::PATH, GetAllSchemasEndpoint::REQ_KEY, GetAllSchemasEndpoint::RESP_KEY),
                    $(("real", Key::for_path::<$rq>("real"), Key::for_path::<$rs>("real"))),*
                ];
                let wtin: Vec<(&str, Key)> = vec![$(("in", Key::for_path::<$tm>("in"))),*];
                let wtout: Vec<(&str, Key)> = vec![
                    (GetAllSchemaDataTopic::PATH, GetAllSchemaDataTopic::TOPIC_KEY),
                    (LoggingTopic::PATH, LoggingTopic::TOPIC_KEY),
                    $(("out", Key::for_path::<$om>("out"))),*
                ];
                fn sorted<X: Ord + Clone>(v: &[X]) -> Vec<X> {
                    let mut v = v.to_vec();
                    v.sort();
                    v
                }
                let b = |k: &Key| k.to_bytes();
                let ge: Vec<_> = app.device_map.endpoints.iter().map(|e| (e.0, b(&e.1), b(&e.2))).collect();
                let we: Vec<_> = weps.iter().map(|e| (e.0, b(&e.1), b(&e.2))).collect();
                assert_eq!(sorted(&ge), sorted(&we), "endpoints of {name}");
                for (what, g, w) in [("incoming", app.device_map.topics_in, &wtin), ("outgoing", app.device_map.topics_out, &wtout)] {
                    let g: Vec<_> = g.iter().map(|e| (e.0, b(&e.1))).collect();
                    let w: Vec<_> = w.iter().map(|e| (e.0, b(&e.1))).collect();
                    assert_eq!(sorted(&g), sorted(&w), "{what} topics of {name}");
                }
                println!("{name}: {} types, {} endpoints, {} + {} topics", all.len(), weps.len(), wtin.len(), wtout.len());
            }
        }
    };
}

iface! { empty; eps: ; tins: ; touts: ; }
iface! { plain; eps: A u8 u16; tins: B u32; touts: C u64; }
iface! { one_each; eps: A Leaf Unit; tins: B Deep; touts: C New; }
iface! { deep; eps: A VecDeep OptOnly, B Tup (); tins: C Arr, D En; touts: E Tup, F Arr; }
iface! { enums; eps: A En bool; tins: B Only; touts: C OptOnly; }
iface! { enum_out; eps: ; tins: ; touts: C En; }
iface! { enum_in; eps: ; tins: C En; touts: ; }
iface! { enum_resp; eps: A u8 En; tins: ; touts: ; }
iface! { twins; eps: A Leaf TwinLeaf, B Unit TwinUnit; tins: C TwinOnly, D Only; touts: E OptOnly; }
iface! { twins_across; eps: A Leaf (); tins: C TwinLeaf; touts: E TwinUnit, F Unit; }
iface! { shared; eps: A Deep Deep, B VecDeep Leaf; tins: C Deep; touts: E VecDeep, F Deep; }
iface! { maps; eps: A Leaf6 Leaf8; tins: C Leaf9; touts: E SInner; }

fn main() {
    empty::check();
    plain::check();
    one_each::check();
    deep::check();
    enums::check();
    enum_out::check();
    enum_in::check();
    enum_resp::check();
    twins::check();
    twins_across::check();
    shared::check();
    maps::check();
}
