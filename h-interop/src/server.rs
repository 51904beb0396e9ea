// A device over `crate::common::Wire`, for the build `prpc` (included once per build).
use crate::c24::types::*;
use crate::common::{encode, kk_len, reduce, Hdr, Sh, Wire};
use prpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use prpc::server::*;
use prpc::standard_icd::LoggingTopic;
use prpc::Topic;
use serde::Serialize;
use std::future::Future;

pub struct DErr;
impl AsWireTxErrorKind for DErr {
    fn as_kind(&self) -> WireTxErrorKind {
        WireTxErrorKind::Other
    }
}
impl AsWireRxErrorKind for DErr {
    fn as_kind(&self) -> WireRxErrorKind {
        WireRxErrorKind::Other
    }
}

#[derive(Clone)]
pub struct DTx {
    w: Wire,
    nlog: Sh<u32>,
}
impl DTx {
    async fn put(&self, f: Vec<u8>) -> Result<(), DErr> {
        vp_rt::point("device.send");
        self.w.push(f);
        Ok(())
    }
}
impl WireTx for DTx {
    type Error = DErr;
    async fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), DErr> {
        // as the transports do it: header, then message, into one fixed buffer
        let mut buf = [0u8; 2048];
        let (h, rest) = hdr.write_to_slice(&mut buf).ok_or(DErr)?;
        let n = h.len() + postcard::to_slice(msg, rest).map_err(|_| DErr)?.len();
        self.put(buf[..n].to_vec()).await
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), DErr> {
        self.put(buf.to_vec()).await
    }
    async fn send_log_str(&self, k: VarKeyKind, s: &str) -> Result<(), DErr> {
        let mut key = VarKey::Key8(LoggingTopic::TOPIC_KEY);
        key.shrink_to(k);
        let n = self.nlog.with(|n| {
            *n += 1;
            *n - 1
        });
        self.send::<<LoggingTopic as Topic>::Message>(VarHeader { key, seq_no: VarSeq::Seq4(n) }, as_log(s).as_ref()).await
    }
    async fn send_log_fmt<'a>(&self, k: VarKeyKind, a: std::fmt::Arguments<'a>) -> Result<(), DErr> {
        self.send_log_str(k, &a.to_string()).await
    }
}

pub struct DRx(Wire);
impl WireRx for DRx {
    type Error = DErr;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], DErr> {
        let f = self.0.next().await;
        buf[..f.len()].copy_from_slice(&f);
        Ok(&mut buf[..f.len()])
    }
}

#[derive(Clone)]
pub struct DSp;
impl WireSpawn for DSp {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
pub fn d_spawn<F: Future<Output = ()> + 'static>(_s: &DSp, f: F) -> Result<(), ()> {
    vp_rt::spawn("handler", f);
    Ok(())
}

pub struct Ctx(pub Runs);
pub struct SCtx(pub Runs);
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx {
        SCtx(self.0.clone())
    }
}

fn rec(l: &Runs, who: &'static str, h: &VarHeader, p: String) {
    let seq = match h.seq_no {
        VarSeq::Seq1(v) => (1, v as u32),
        VarSeq::Seq2(v) => (2, v as u32),
        VarSeq::Seq4(v) => (4, v),
    };
    vp_rt::log(|| format!("device runs {who}({p}) for {seq:?}"));
    l.with(|l| l.push((who, p, seq)));
}

fn eb(c: &mut Ctx, h: VarHeader, r: Ans) -> Ans {
    rec(&c.0, "eb", &h, format!("{r:?}"));
    f_eb(&r)
}
async fn ea(c: &mut Ctx, h: VarHeader, r: u32) -> Ans {
    rec(&c.0, "ea", &h, format!("{r:?}"));
    vp_rt::yield_now().await;
    f_ea(&r)
}
fn ef(c: &mut Ctx, h: VarHeader, r: u8) -> Fussy {
    rec(&c.0, "ef", &h, format!("{r:?}"));
    Fussy(r)
}
fn q1(c: &mut Ctx, h: VarHeader, r: Ans) -> Ans {
    rec(&c.0, "q1", &h, format!("{r:?}"));
    f_q1(&r)
}
async fn q2(c: &mut Ctx, h: VarHeader, r: Ans) -> Ans {
    rec(&c.0, "q2", &h, format!("{r:?}"));
    f_q2(&r)
}
fn tb(c: &mut Ctx, h: VarHeader, r: Ans, _o: &Sender<DTx>) {
    rec(&c.0, "tb", &h, format!("{r:?}"));
}
async fn ts(c: SCtx, h: VarHeader, r: u16, o: Sender<DTx>) {
    rec(&c.0, "ts", &h, format!("{r:?}"));
    let _ = o.log_fmt(format_args!("ts {r}")).await;
}
fn p1(c: &mut Ctx, h: VarHeader, r: Ans, _o: &Sender<DTx>) {
    rec(&c.0, "p1", &h, format!("{r:?}"));
}
async fn p2(c: &mut Ctx, h: VarHeader, r: Ans, o: &Sender<DTx>) {
    rec(&c.0, "p2", &h, format!("{r:?}"));
    let _ = o.log_str("p2").await;
}

macro_rules! dev {
    ($m:ident) => {
        pub mod $m {
            use super::*;
            use icd::$m::*;
            use prpc::define_dispatch;
            async fn es(c: SCtx, h: VarHeader, r: Shape, o: Sender<DTx>) {
                rec(&c.0, "es", &h, format!("{r:?}"));
                let _ = o.publish::<To>(h.seq_no, &Ans { who: 7, what: f_es(&r) as u32 }).await;
                vp_rt::yield_now().await;
                let _ = o.reply::<Es>(h.seq_no, &f_es(&r)).await;
            }
            async fn ta(c: &mut Ctx, h: VarHeader, r: Shape, o: &Sender<DTx>) {
                rec(&c.0, "ta", &h, format!("{r:?}"));
                vp_rt::yield_now().await;
                let _ = o.publish::<Tx>(h.seq_no, &r).await;
            }
            define_dispatch! {
                app: App;
                spawn_fn: d_spawn;
                tx_impl: DTx;
                spawn_impl: DSp;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind     | handler |
                    | ---------- | ----     | ------- |
                    | Eb         | blocking | eb      |
                    | Ea         | async    | ea      |
                    | Es         | spawn    | es      |
                    | Ef         | blocking | ef      |
                    | Q1         | blocking | q1      |
                    | Q2         | async    | q2      |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind     | handler |
                    | ------- | ----     | ------- |
                    | Tb      | blocking | tb      |
                    | Ta      | async    | ta      |
                    | Ts      | spawn    | ts      |
                    | P1      | blocking | p1      |
                    | P2      | async    | p2      |
                };
                topics_out: { list: TOUT; };
            }
            pub fn serve(sim: &vp_rt::Sim, w: &Wire, l: &Runs) -> usize {
                let app = App::new(Ctx(l.clone()), DSp);
                let kl = app.min_key_len();
                let mut srv = Server::new(DTx { w: w.clone(), nlog: Sh::new(0) }, DRx(w.clone()), vec![0u8; 64], app, kl);
                sim.spawn("device", async move {
                    let _ = srv.run().await;
                });
                kk_num(kl)
            }
        }
    };
}
fn kk_num(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}
dev!(d1);
dev!(d2);
dev!(d4);
dev!(d8);
