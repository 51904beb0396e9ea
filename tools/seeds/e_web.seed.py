WU='host_client/webusb.rs'
WEB=dict(features='["use-std","webusb"]',rustflags='--cfg vp_hooks',extra='''browser = { path = "browser" }
[patch.crates-io]
gloo = { path = "gloo" }
js-sys = { path = "js-sys" }
web-sys = { path = "web-sys" }
wasm-bindgen = { path = "wasm-bindgen" }
wasm-bindgen-futures = { path = "wasm-bindgen-futures" }
''',dirs=[('/verif/vendor/'+d,d) for d in ('browser','gloo','js-sys','web-sys','wasm-bindgen','wasm-bindgen-futures')])
MAIN_WEB='''//PRELUDE
#[no_mangle]
pub fn vp_point(_: &'static str) {}
#[no_mangle]
pub fn vp_spin(_: &'static str) {}
use browser::{mock::*, web::UsbTransferStatus as St};
fn news(seq: u8, v: u32) -> Vec<u8> {
    let mut f = VarHeader { key: VarKey::Key8(News::TOPIC_KEY), seq_no: VarSeq::Seq1(seq) }.write_to_vec();
    f.extend(postcard::to_stdvec(&v).unwrap());
    f
}
async fn open(v: u16, max: u32) -> Result<HostClient<WireError>, String> {
    HostClient::<WireError>::try_new_webusb(v, 0, max, 1, 2, "error", 4, VarSeqKind::Seq1).await.map_err(|e| e.to_string())
}
'''
seed('c23-babble-accepted','C23',WU,[
("""        if status == UsbTransferStatus::Ok {
            match res.data() {""","""        // A stalled endpoint has nothing to offer, anything else comes with data
        if status != UsbTransferStatus::Stall {
            match res.data() {""")],
"an incoming transfer that is larger than the maximum the client asked for (the browser reports it as babble, with the bytes received)",
"the beginning of the transfer is delivered as if it were a frame, and the client stays open",
MAIN_WEB+'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    tokio::task::LocalSet::new().run_until(async {
        let d = plug(vec![Spec { vendor: 7, paired: true, ..Default::default() }]).pop().unwrap();
        let c = open(7, 10).await.unwrap();
        let mut sub = c.subscribe_exclusive::<News>(8).await.unwrap();
        d.until(|d| d.ins_open() > 0).await;
        // 14 bytes: the value is cut
        d.settle_in(Outcome::Status(St::Ok), Some(news(1, 0xffff_ffff)));
        let r = tokio::time::timeout(Duration::from_secs(2), sub.recv()).await.expect("still open");
        assert_eq!(r, None);
        assert!(c.is_closed());
    }).await
}
''',**WEB)
seed('c23-empty-result-ends-silently','C23',WU,[
("""                None => Ok(vec![]),""","""                None => Err(Error::UsbTransfer("no data")),""")],
"an incoming transfer without data (an empty packet, as some browsers report it)",
"the client closes although nothing failed",
MAIN_WEB+'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    tokio::task::LocalSet::new().run_until(async {
        let d = plug(vec![Spec { vendor: 7, paired: true, ..Default::default() }]).pop().unwrap();
        let c = open(7, 100).await.unwrap();
        let mut sub = c.subscribe_exclusive::<News>(8).await.unwrap();
        d.until(|d| d.ins_open() > 0).await;
        d.settle_in(Outcome::Status(St::Ok), None);
        tokio::time::timeout(Duration::from_secs(2), d.until(|d| d.ins_open() > 0)).await.expect("gave up");
        d.settle_in(Outcome::Status(St::Ok), Some(news(1, 5)));
        assert_eq!(sub.recv().await, Some(5));
    }).await
}
''',**WEB)
