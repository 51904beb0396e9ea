N='host_client/raw_nusb.rs'; SE='host_client/serial.rs'
NU=dict(features='["use-std","raw-nusb"]',extra='nusb = "0.1.9"\n[patch.crates-io]\nnusb = { path = "nusb" }\n',dirs=[('/verif/vendor/nusb','nusb')])
SR=dict(features='["use-std","cobs-serial"]',extra='tokio-serial = "5.4.4"\ncobs = { version = "0.2.3", features = ["use_std"] }\n[patch.crates-io]\ntokio-serial = { path = "tokio-serial" }\n',dirs=[('/verif/vendor/tokio-serial','tokio-serial')])
MAIN_S='''//PRELUDE
use tokio_serial::mock::*;
fn enc(f: &[u8]) -> Vec<u8> { let mut v = cobs::encode_vec(f); v.push(0); v }
fn news(seq: u8, v: u32) -> Vec<u8> {
    let mut f = VarHeader { key: VarKey::Key8(News::TOPIC_KEY), seq_no: VarSeq::Seq1(seq) }.write_to_vec();
    f.extend(postcard::to_stdvec(&v).unwrap());
    f
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let port = plug(&["tty"]).pop().unwrap();
    let c = HostClient::<WireError>::try_new_serial_cobs("tty", "error", 4, 9600, VarSeqKind::Seq1).unwrap();
'''
seed('c18-rest-of-read-dropped','C18',SE,[
("""                        if data.len() >= 3 {
                            self.pending.push_back(data.to_vec());
                        } else {
                            tracing::warn!("Ignoring too-short message: {} bytes", data.len());
                        }
                        remaining""","""                        if data.len() >= 3 {
                            self.pending.push_back(data.to_vec());
                            // keep the tail of this read for the next frame
                            let tail = remaining.to_vec();
                            if let FeedResult::Consumed = self.acc.feed(&tail) {}
                            break 'cobs;
                        } else {
                            tracing::warn!("Ignoring too-short message: {} bytes", data.len());
                        }
                        remaining""")],
"three frames (or two and the end of another) handed over by one read",
"a frame that is completely contained in the tail of the read is decoded and dropped, the rest behind it too",
MAIN_S+'''    let mut sub = c.subscribe_exclusive::<News>(8).await.unwrap();
    port.feed([enc(&news(1, 10)), enc(&news(2, 20)), enc(&news(3, 30))].concat());
    for w in [10, 20, 30] {
        let g = tokio::time::timeout(Duration::from_secs(2), sub.recv()).await.expect("frame lost");
        assert_eq!(g, Some(w));
    }
}
''',**SR)
seed('c18-short-write','C18',SE,[
("""        self.tx.write_all(&msg).await?;
        Ok(())""","""        let mut left = msg.as_slice();
        while left.len() > 1 {
            let n = self.tx.write(left).await?;
            if n == 0 {
                return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into());
            }
            left = &left[n..];
        }
        Ok(())""")],
"a port that accepts all of a frame but its last byte in one write",
"the terminator of the frame is never written, the frame runs into the next one",
MAIN_S+'''    port.st().short = true; // one byte at a time
    for i in 0..3u32 {
        c.publish::<News>(VarSeq::Seq1(i as u8), &i).await.unwrap();
    }
    tokio::time::sleep(Duration::from_millis(300)).await;
    let w = port.st().written.clone();
    let want: Vec<u8> = (0..3u32).flat_map(|i| enc(&news(i as u8, i))).collect();
    assert_eq!(w, want);
}
''',**SR)
MAIN_N='''//PRELUDE
use nusb::{mock::*, transfer::{EndpointType::*, TransferError}};
const OUT: u8 = 2;
const IN: u8 = 0x81;
fn dev(out: usize, inn: usize) -> std::sync::Arc<Dev> {
    plug(vec![DevSpec { serial: Some("1".into()), interfaces: vec![(0xff, vec![vec![EpSpec { addr: OUT, ty: Bulk, mps: out }, EpSpec { addr: IN, ty: Bulk, mps: inn }]])], ..Default::default() }]).pop().unwrap()
}
fn news(seq: u8, v: u32) -> Vec<u8> {
    let mut f = VarHeader { key: VarKey::Key8(News::TOPIC_KEY), seq_no: VarSeq::Seq1(seq) }.write_to_vec();
    f.extend(postcard::to_stdvec(&v).unwrap());
    f
}
fn usb_client() -> HostClient<WireError> {
    HostClient::<WireError>::try_new_raw_nusb(|_| true, "error", 4, VarSeqKind::Seq1).unwrap()
}
'''
seed('c19-packet-size-of-in-endpoint','C19',N,[
("""                    Direction::Out => {
                        mps = Some(match mps.take() {
                            Some(old) => old.min(ep.max_packet_size()),
                            None => ep.max_packet_size(),
                        });
                        ep_out = Some(ep.address());
                    }
                    Direction::In => ep_in = Some(ep.address()),
                }""","""                    Direction::Out => ep_out = Some(ep.address()),
                    Direction::In => ep_in = Some(ep.address()),
                }
                mps = Some(match mps.take() {
                    Some(old) => old.max(ep.max_packet_size()),
                    None => ep.max_packet_size(),
                });""")],
"a device whose IN endpoint has larger packets than its OUT endpoint and a frame whose length is a multiple of the OUT packet size",
"no empty packet ends the frame, the device keeps waiting for the rest of it",
MAIN_N+'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    let d = dev(16, 64);
    let c = usb_client();
    let f: Vec<u8> = news(1, 1);
    assert_eq!(f.len(), 11);
    // header 10 bytes + 5 + 1 = 16
    c.publish::<News>(VarSeq::Seq1(1), &1).await.unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    while d.complete(OUT, Ok(None)).is_some() {}
    tokio::time::sleep(Duration::from_millis(50)).await;
    c.publish::<News>(VarSeq::Seq4(1), &0xffff).await.unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    let subs = d.st().eps[&OUT].subs.clone();
    assert_eq!(subs[1].0.len(), 16);
    assert!(subs.len() == 3 && subs[2].0.is_empty(), "frame of 16 bytes not terminated");
}
''',**NU)
seed('c19-failures-counted-for-ever','C19',N,[
("""            // If we get a good decode, clear the error flag
            if self.consecutive_errs != 0 {""","""            // If we get a good decode, clear the error flag
            if self.consecutive_errs > MAX_STALL_RETRIES {""")],
"eleven stalls spread over a connection, with successful transfers in between",
"the eleventh stall closes the client although the stalls are not consecutive",
MAIN_N+'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    let d = dev(64, 64);
    let c = usb_client();
    let mut sub = c.subscribe_exclusive::<News>(8).await.unwrap();
    for i in 0..15u32 {
        d.wanted(IN).await;
        d.complete(IN, Err(TransferError::Stall)).unwrap();
        tokio::time::sleep(Duration::from_millis(5)).await;
        tokio::time::timeout(Duration::from_secs(2), d.wanted(IN)).await.expect("gave up");
        d.complete(IN, Ok(Some(news(i as u8, i)))).unwrap();
        assert_eq!(sub.recv().await, Some(i));
    }
}
''',**NU)
seed('c19-zlp-not-awaited','C19',N,[
("""        if needs_zlp {
            let send_res = self.boq.next_complete().await;
            if let Err(e) = send_res.status {
                tracing::error!("Output Queue Error: {e:?}");
                return Err(e.into());
            }
        }

        Ok(())""","""        // The terminating packet is reaped together with a later transfer
        while self.boq.pending() > 1 {
            let send_res = self.boq.next_complete().await;
            if let Err(e) = send_res.status {
                tracing::error!("Output Queue Error: {e:?}");
                return Err(e.into());
            }
        }

        Ok(())""")],
"a frame whose length is a multiple of the packet size, followed by a transfer that fails or stalls",
"from then on a frame counts as sent as soon as the previous transfer is complete: the failure of the last frame is never noticed",
MAIN_N+'''#[tokio::main(flavor = "current_thread")]
async fn main() {
    let d = dev(16, 64);
    let c = usb_client();
    c.publish::<News>(VarSeq::Seq4(1), &0xffff).await.unwrap(); // 16 bytes
    tokio::time::sleep(Duration::from_millis(50)).await;
    assert_eq!(d.st().eps[&OUT].subs.len(), 2);
    d.complete(OUT, Ok(None));
    d.complete(OUT, Ok(None));
    tokio::time::sleep(Duration::from_millis(50)).await;
    c.publish::<News>(VarSeq::Seq1(2), &1).await.unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    d.complete(OUT, Err(TransferError::Stall)).unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    assert!(c.is_closed(), "the failed send went unnoticed");
}
''',**NU)
