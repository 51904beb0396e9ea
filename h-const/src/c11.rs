//! C11: the key length.
use postcard_rpc::header::VarKeyKind;
use postcard_rpc::server::min_key_needed;
use postcard_rpc::standard_icd::*;
use postcard_rpc::{Endpoint, Key, Topic};
use std::collections::HashSet;
use vp_rt::report::{Args, Report};

/// The first `n`-byte form of a key: each byte is the XOR of 8/n adjacent ones.
fn red(k: &[u8; 8], n: usize) -> u64 {
    k.chunks(8 / n).fold(0, |v, c| v << 8 | c.iter().fold(0u8, |a, x| a ^ x) as u64)
}

/// Brute force; `None`: not even the full keys are distinct.
fn needed(ks: &[[u8; 8]]) -> Option<usize> {
    [1, 2, 4, 8].into_iter().find(|n| {
        let s: HashSet<u64> = ks.iter().map(|k| red(k, *n)).collect();
        s.len() == ks.len()
    })
}

fn len_of(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}

/// Every way to cut `ks` into three lists (the function also gets one and two lists).
fn check(ks: &[[u8; 8]]) -> u64 {
    let keys: Vec<Key> = ks.iter().map(|b| unsafe { Key::from_bytes(*b) }).collect();
    let want = needed(ks);
    let mut n = 0;
    let mut one = |lists: &[&[Key]]| {
        let got = vp_rt::catch(|| min_key_needed(lists)).ok();
        assert_eq!(got, want, "key length for {ks:02x?} in lists of {:?}", lists.iter().map(|l| l.len()).collect::<Vec<_>>());
        n += 1;
    };
    let l = keys.len();
    one(&[&keys]);
    for i in 0..=l {
        one(&[&keys[..i], &keys[i..]]);
        for j in i..=l {
            one(&[&keys[..i], &keys[i..j], &keys[j..]]);
        }
    }
    n
}

pub struct Case {
    pub name: &'static str,
    pub want: usize,
    pub got: VarKeyKind,
    pub map: VarKeyKind,
    /// handlers for none of them
    pub idle: VarKeyKind,
    pub eps: Vec<(Key, Key)>,
    pub tins: Vec<Key>,
    pub touts: Vec<Key>,
}

pub struct Ctx;
impl postcard_rpc::server::SpawnContext for Ctx {
    type SpawnCtxt = ();
    fn spawn_ctxt(&mut self) {}
}
pub fn ep(_c: &mut Ctx, _h: postcard_rpc::header::VarHeader, v: u8) -> u16 {
    v as u16
}
pub fn tin(
    _c: &mut Ctx,
    _h: postcard_rpc::header::VarHeader,
    _v: u32,
    _o: &postcard_rpc::server::Sender<postcard_rpc::server::impls::test_channels::ChannelWireTx>,
) {
}

/// One module with a real dispatcher per case.
#[macro_export]
macro_rules! disp {
    ($($name:ident $want:literal [$($e:ident $ep:literal)*] [$($t:ident $tp:literal)*] [$($o:ident $op:literal)*];)*) => {
        $(mod $name {
            use postcard_rpc::server::impls::test_channels::dispatch_impl::*;
            use postcard_rpc::server::impls::test_channels::ChannelWireSpawn;
            use postcard_rpc::server::Dispatch;
            use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};
            use $crate::c11::{ep, tin, Case, Ctx};
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                $(| $e | u8 | u16 | $ep |)*
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $t | u32 | $tp |)*
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $o | u64 | $op |)*
            }
            mod all {
                use super::*;
                define_dispatch! {
                    app: App; spawn_fn: spawn_fn; tx_impl: WireTxImpl; spawn_impl: WireSpawnImpl; context: Ctx;
                    endpoints: {
                        list: EPS;
                        | EndpointTy | kind | handler |
                        | ---------- | ---- | ------- |
                        $(| $e | blocking | ep |)*
                    };
                    topics_in: {
                        list: TIN;
                        | TopicTy | kind | handler |
                        | ------- | ---- | ------- |
                        $(| $t | blocking | tin |)*
                    };
                    topics_out: { list: TOUT; };
                }
            }
            mod idle {
                use super::*;
                define_dispatch! {
                    app: App; spawn_fn: spawn_fn; tx_impl: WireTxImpl; spawn_impl: WireSpawnImpl; context: Ctx;
                    endpoints: {
                        list: EPS;
                        | EndpointTy | kind | handler |
                        | ---------- | ---- | ------- |
                    };
                    topics_in: {
                        list: TIN;
                        | TopicTy | kind | handler |
                        | ------- | ---- | ------- |
                    };
                    topics_out: { list: TOUT; };
                }
            }
            pub fn case() -> Case {
                let a = all::App::new(Ctx, ChannelWireSpawn);
                let i = idle::App::new(Ctx, ChannelWireSpawn);
                Case {
                    name: stringify!($name),
                    want: $want,
                    got: a.min_key_len(),
                    map: a.device_map.min_key_len,
                    idle: i.min_key_len(),
                    eps: vec![$((postcard_rpc::Key::for_path::<u8>($ep), postcard_rpc::Key::for_path::<u16>($ep))),*],
                    tins: vec![$(postcard_rpc::Key::for_path::<u32>($tp)),*],
                    touts: vec![$(postcard_rpc::Key::for_path::<u64>($op)),*],
                }
            }
        })*
        pub fn all() -> Vec<$crate::c11::Case> {
            vec![$($name::case()),*]
        }
    };
}

pub fn run(a: Args) {
    let mut r = Report::new(a, "model_checking", "distinct (list shape, keys) resp. dispatcher definitions");
    let th = r.thorough();
    // keys that differ from one another first at each of the lengths
    let d: [[u8; 8]; 4] = [[0, 0, 0, 0, 0, 0, 0, 1], [0, 0, 0, 1, 0, 0, 0, 1], [0, 1, 0, 1, 0, 1, 0, 1], [1; 8]];
    let mk = |m: usize| -> [u8; 8] {
        let mut k = [0x5a, 3, 0xc0, 0x11, 0x77, 0x80, 0xfe, 9];
        for (i, x) in d.iter().enumerate() {
            if m >> i & 1 == 1 {
                k.iter_mut().zip(x).for_each(|(a, b)| *a ^= b);
            }
        }
        k
    };
    r.cases("up to 4 keys of 16, every cut into up to 3 lists", |c| {
        let top = if th { 5 } else { 4 };
        for n in 0..=top {
            let tot = 16usize.pow(n);
            crate::par(c, (tot + 255) / 256, |b| {
                let mut k = 0;
                for v in b * 256..tot.min(b * 256 + 256) {
                    let ks: Vec<[u8; 8]> = (0..n).map(|i| mk(v >> (4 * i) & 15)).collect();
                    k += check(&ks);
                }
                k
            });
        }
    });
    r.cases("keys that differ in one or two arbitrary bytes", |c| {
        // every pair of byte positions, in the second list or the same one
        crate::par(c, 64, |p| {
            let (i, j) = (p / 8, p % 8);
            let mut k = 0;
            for v in [1u8, 0x80, 0xff] {
                for w in [0u8, 1, 0x80, 0xff] {
                    let a = mk(0);
                    let mut b = a;
                    b[i] ^= v;
                    b[j] ^= w;
                    k += check(&[a, b]);
                    k += check(&[mk(1), a, b]);
                    k += check(&[b, mk(1), a]);
                    k += check(&[mk(4), b, a, mk(1)]);
                }
            }
            k
        });
    });
    r.cases("nine keys of 4 in three lists of three", |c| {
        let alpha: [usize; 4] = [0, 1, 2, 8];
        crate::par(c, 4usize.pow(5), |b| {
            let mut k = 0;
            for v in 0..4usize.pow(4) {
                let v = b << 8 | v;
                let mut ks: Vec<Key> = vec![];
                let mut bs = vec![];
                for i in 0..9 {
                    let x = mk(alpha[v >> (2 * i) & 3]);
                    bs.push(x);
                    ks.push(unsafe { Key::from_bytes(x) });
                }
                let got = vp_rt::catch(|| min_key_needed(&[&ks[..3], &ks[3..6], &ks[6..]])).ok();
                assert_eq!(got, needed(&bs), "key length for {bs:02x?}");
                k += 1;
            }
            k
        });
    });
    r.cases("two equal or close keys anywhere in up to 8 lists", |c| {
        // distinct at the first length but for the one pair
        for n in 2..=8usize {
            for i in 0..n {
                for j in i + 1..n {
                    for e in [[0; 8], d[0], d[1], d[2], d[3]] {
                        for per in 1..=3usize {
                            let mut bs: Vec<[u8; 8]> = (0..n * per).map(|x| [0, 0, 0, 0, 0, 0, 0, x as u8]).collect();
                            let mut k = bs[i * per];
                            k.iter_mut().zip(e).for_each(|(a, b)| *a ^= b);
                            bs[j * per + per - 1] = k;
                            let ks: Vec<Key> = bs.iter().map(|b| unsafe { Key::from_bytes(*b) }).collect();
                            let lists: Vec<&[Key]> = ks.chunks(per).collect();
                            let got = vp_rt::catch(|| min_key_needed(&lists)).ok();
                            assert_eq!(got, needed(&bs), "key length for {n} lists of {per}, {:02x?} in list {i} and {j}", [bs[i * per], k]);
                            c.hit(c.n);
                        }
                    }
                }
            }
        }
    });
    r.cases("one close pair late in a long list", |c| {
        for n in [258usize, 300, 600] {
            for (i, j) in [(0, n - 1), (n - 2, n - 1), (256, n - 1), (255, 256), (n / 2, n / 2 + 1)] {
                for e in [d[0], d[1], d[2], d[3]] {
                    // distinct from two bytes on but for the one pair
                    let mut bs: Vec<[u8; 8]> = (0..n as u64).map(|x| [0, 0, 0, (x >> 8) as u8, 0, 0, 0, x as u8]).collect();
                    let mut k = bs[i];
                    k.iter_mut().zip(e).for_each(|(a, b)| *a ^= b);
                    bs[j] = k;
                    let ks: Vec<Key> = bs.iter().map(|b| unsafe { Key::from_bytes(*b) }).collect();
                    for cut in [n, n - 1, 200] {
                        let got = vp_rt::catch(|| min_key_needed(&[&ks[..cut], &ks[cut..]])).ok();
                        assert_eq!(got, needed(&bs), "key length for {n} keys cut at {cut}, {:02x?} at {i} and {j}", [bs[i], k]);
                        c.hit(c.n);
                    }
                }
            }
        }
    });
    r.cases("long lists of distinct keys", |c| {
        for n in [1usize, 2, 16, 255, 256, 257, 300, 700] {
            for s in [0usize, 1, n / 2, n] {
                for stride in [1u64, 3, 255, 257, 0x0001_0001, 0x0100_0000_0000_0001] {
                    let bs: Vec<[u8; 8]> = (0..n as u64).map(|i| (i.wrapping_mul(stride)).to_be_bytes()).collect();
                    let ks: Vec<Key> = bs.iter().map(|b| unsafe { Key::from_bytes(*b) }).collect();
                    let got = vp_rt::catch(|| min_key_needed(&[&ks[..s], &ks[s..]])).ok();
                    assert_eq!(got, needed(&bs), "key length for {n} keys of stride {stride:x} cut at {s}");
                    c.hit((n * 1000 + s) as u64 ^ stride << 32);
                }
            }
        }
    });
    r.cases("dispatchers", |c| {
        for x in crate::cases::all() {
            let mut ins = vec![PingEndpoint::REQ_KEY, GetAllSchemasEndpoint::REQ_KEY];
            ins.extend(x.eps.iter().map(|e| e.0));
            ins.extend(&x.tins);
            let mut outs = vec![
                PingEndpoint::RESP_KEY,
                GetAllSchemasEndpoint::RESP_KEY,
                GetAllSchemaDataTopic::TOPIC_KEY,
                LoggingTopic::TOPIC_KEY,
                ERROR_KEY,
            ];
            outs.extend(x.eps.iter().map(|e| e.1));
            outs.extend(&x.touts);
            let b = |v: &[Key]| needed(&v.iter().map(|k| k.to_bytes()).collect::<Vec<_>>()).unwrap();
            let want = b(&ins).max(b(&outs));
            c.at(|| format!("dispatcher {}", x.name));
            for (what, g) in [("min_key_len", x.got), ("device_map.min_key_len", x.map), ("min_key_len without handlers", x.idle)] {
                assert_eq!(
                    len_of(g),
                    want,
                    "{what} of dispatcher {}: {} bytes are needed to tell what it receives apart, {} for what it sends",
                    x.name,
                    b(&ins),
                    b(&outs)
                );
                c.hit(c.n);
            }
            if want != x.want {
                // the reduction itself has changed (C10's business): not the intended collision
                vp_rt::report::beat();
            }
            c.sample(|| format!("{}: {want} bytes", x.name));
        }
    });
    r.cases("definitions that must be refused", |c| {
        let (ok, err) = crate::compiles("neg_ok");
        assert!(ok, "the control program does not compile: {err}");
        for (b, what) in [
            ("neg_dup_ep", "two endpoints with the same keys"),
            ("neg_dup_resp_only", "two endpoints with the same response key"),
            ("neg_dup_tin", "an incoming topic with the key of a request"),
            ("neg_dup_tout", "an outgoing topic with the key of a reply"),
            ("neg_ep_not_listed", "a handler for an unlisted endpoint (its keys are not part of the computation)"),
            ("neg_resp_not_listed", "a handler for an endpoint listed with another response (its response key is not part of the computation)"),
            ("neg_tin_not_listed", "a handler for an unlisted topic (its key is not part of the computation)"),
        ] {
            c.at(|| b.to_string());
            let (ok, _) = crate::compiles(b);
            assert!(!ok, "{what}: the dispatcher is accepted");
            c.hit(c.n);
            c.sample(|| format!("{what}: refused at compile time"));
        }
    });
    r.assume("user-defined lists are made with the endpoints!/topics! macros in their documented form (without the internal omit_std)");
    r.finish()
}
