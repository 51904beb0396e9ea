H='host_client/mod.rs'; U='host_client/util.rs'
seed('c01-seq-rollback','C01',H,[
("""        let frame = self.send_resp_raw(frame, E::RESP_KEY).await?;
        let r = postcard::from_bytes""","""        // Don't burn sequence numbers on requests that were given up
        struct Rollback<'a>(&'a AtomicU32, u32, bool);
        impl Drop for Rollback<'_> {
            fn drop(&mut self) {
                if !self.2 {
                    let next = self.1.wrapping_add(1);
                    let _ = self.0.compare_exchange(next, self.1, Ordering::Relaxed, Ordering::Relaxed);
                }
            }
        }
        let mut guard = Rollback(&self.ctx.seq, seq_no, false);
        let frame = self.send_resp_raw(frame, E::RESP_KEY).await?;
        guard.2 = true;
        let r = postcard::from_bytes""")],
"a call abandoned (timed out) after its request was sent, no other call issued in between, and its reply arriving while the next call to the same endpoint waits",
"the next call re-uses the abandoned call's sequence number and returns the late reply meant for the abandoned one",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq4, 8, Duration::ZERO);
    let r = tokio::time::timeout(Duration::from_millis(50), c.send_resp::<Add>(&1)).await;
    assert!(r.is_err());
    let (h1, _) = p.next().await;
    let c2 = c.clone();
    let t = tokio::spawn(async move { c2.send_resp::<Add>(&2).await });
    let (h2, _) = p.next().await;
    p.reply(Add::RESP_KEY, VarKeyKind::Key8, h1.seq_no, &111u64);
    tokio::time::sleep(Duration::from_millis(20)).await;
    p.reply(Add::RESP_KEY, VarKeyKind::Key8, h2.seq_no, &222u64);
    assert_eq!(soon(t).await.unwrap(), Ok(222));
}
""")
seed('c04-wait-before-resize','C04',H,[
("""        rqst.header.key.shrink_to(kkind);
        rqst.header.seq_no.resize(self.seq_kind);
        let mut resp_key""","""        let seq_no = rqst.header.seq_no;
        rqst.header.key.shrink_to(kkind);
        rqst.header.seq_no.resize(self.seq_kind);
        let mut resp_key"""),
("""        let ok_resp = self.ctx.map.wait(VarHeader {
            seq_no: rqst.header.seq_no,""","""        let ok_resp = self.ctx.map.wait(VarHeader {
            seq_no,"""),
("""        let err_resp = self.ctx.map.wait(VarHeader {
            seq_no: rqst.header.seq_no,""","""        let err_resp = self.ctx.map.wait(VarHeader {
            seq_no,""")],
"a client configured with 1-byte sequence numbers that has issued more than 256 requests",
"from the 257th request on, the reply no longer matches the registered wait and the call hangs",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq1, 8, Duration::ZERO);
    tokio::spawn(async move {
        loop {
            let (h, _) = p.next().await;
            p.reply(Add::RESP_KEY, VarKeyKind::Key8, h.seq_no, &7u64);
        }
    });
    for _ in 0..300 {
        assert_eq!(soon(c.send_resp::<Add>(&1)).await, Ok(7));
    }
}
""")
seed('c03-publish-drops-when-full','C03',H,[
("""        let cancel_fut = self.stopper.wait_stopped();
        let operate_fut = self.out.send(frame);

        select! {
            _ = cancel_fut => Err(IoClosed),
            res = operate_fut => res.map_err(|_| IoClosed),
        }""","""        if self.stopper.is_stopped() {
            return Err(IoClosed);
        }
        // There is no feedback for topics, so there is no point in waiting here
        match self.out.try_send(frame) {
            Ok(()) | Err(mpsc::error::TrySendError::Full(_)) => Ok(()),
            Err(mpsc::error::TrySendError::Closed(_)) => Err(IoClosed),
        }""")],
"the outgoing queue is full at the moment of a publish",
"the message is silently dropped although publish reported success",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq2, 1, Duration::ZERO);
    p.gate.send(false).unwrap();
    let t = tokio::spawn(async move {
        for i in 0..5u32 {
            c.publish::<News>(VarSeq::Seq2(i as u16), &i).await.unwrap();
        }
        c
    });
    tokio::time::sleep(Duration::from_millis(50)).await;
    p.gate.send(true).unwrap();
    let _c = soon(t).await.unwrap();
    for i in 0..5u32 {
        let (_, b) = p.next().await;
        assert_eq!(b, postcard::to_stdvec(&i).unwrap());
    }
}
""")
seed('c05-key-length-only-shrinks','C05',H,[
("""            o = ok_resp => {
                let (hdr, resp) = o?;
                if hdr.key.kind() != kkind {
                    *self.ctx.kkind.write().unwrap() = hdr.key.kind();
                }""","""            o = ok_resp => {
                let (hdr, resp) = o?;
                // Keys can only be shrunk, see VarKey::shrink_to
                if (hdr.key.kind() as u8) < (kkind as u8) {
                    *self.ctx.kkind.write().unwrap() = hdr.key.kind();
                }""")],
"a server that first answers with short keys and later (e.g. after a firmware update behind the same link) with longer ones",
"the client keeps sending the short keys after a successful reply with a longer key",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq2, 8, Duration::ZERO);
    for kind in [VarKeyKind::Key1, VarKeyKind::Key4, VarKeyKind::Key2, VarKeyKind::Key8] {
        let c2 = c.clone();
        let t = tokio::spawn(async move { c2.send_resp::<Add>(&2).await });
        let (h, _) = p.next().await;
        p.reply(Add::RESP_KEY, kind, h.seq_no, &5u64);
        assert_eq!(soon(t).await.unwrap(), Ok(5));
        c.publish::<News>(VarSeq::Seq1(0), &1).await.unwrap();
        let (h, _) = p.next().await;
        assert_eq!(h.key.kind(), kind);
    }
}
""")
seed('c06-no-purge-on-cancel','C06',U,[
("""    let operate_fut = in_worker_inner(wire, host_ctx, subscriptions.clone());
    select! {
        biased;
        _ = cancel_fut => {},""","""    let operate_fut = in_worker_inner(wire, host_ctx, subscriptions.clone());
    select! {
        biased;
        // Someone else noticed first, nothing left to do for us
        _ = cancel_fut => return,""")],
"the client is closed explicitly or by a failure of the sending side (not by a receive failure) while a subscription is waiting",
"subscriptions never end: the waiting subscriber hangs forever",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, _p) = client(VarSeqKind::Seq2, 8, Duration::ZERO);
    let mut s = c.subscribe_exclusive::<News>(4).await.unwrap();
    let t = tokio::spawn(async move { s.recv().await });
    tokio::task::yield_now().await;
    c.close();
    assert_eq!(soon(t).await.unwrap(), None);
}
""")
seed('c07-timeout-ends-subscription','C07',U,[
("""                            _ = tokio::time::sleep(host_ctx.subscription_timeout) => {
                                tracing::error!("Subscription channel full! Message dropped.");
                                false
                            }""","""                            _ = tokio::time::sleep(host_ctx.subscription_timeout) => {
                                tracing::error!("Subscription channel stuck! Message dropped.");
                                true
                            }""")],
"a configured subscriber timeout, and a subscriber that stays full for longer than that once",
"the subscription is removed instead of losing the one message: everything after it is lost",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, p) = client(VarSeqKind::Seq2, 8, Duration::from_millis(30));
    let mut s = c.subscribe_exclusive::<News>(1).await.unwrap();
    p.reply(News::TOPIC_KEY, VarKeyKind::Key8, VarSeq::Seq1(0), &0u32);
    p.reply(News::TOPIC_KEY, VarKeyKind::Key8, VarSeq::Seq1(1), &1u32);
    tokio::time::sleep(Duration::from_millis(200)).await;
    assert_eq!(soon(s.recv()).await, Some(0));
    p.reply(News::TOPIC_KEY, VarKeyKind::Key8, VarSeq::Seq1(2), &2u32);
    assert_eq!(soon(s.recv()).await, Some(2));
}
""")
seed('c08-stale-entry','C08',H,[
("""                if !entry.1.is_closed() {
                    tracing::warn!("replacing subscription for raw topic key '{:?}'", key);
                }
                entry.1 = tx;
            } else {
                guard.exclusive_list.push((key, tx));
            }""","""                if entry.1.is_closed() {
                    // will be cleaned up by the worker
                    guard.exclusive_list.push((key, tx));
                } else {
                    tracing::warn!("replacing subscription for raw topic key '{:?}'", key);
                    entry.1 = tx;
                }
            } else {
                guard.exclusive_list.push((key, tx));
            }""")],
"a subscription dropped and the topic subscribed again (replacing kind, raw) with no message of it arriving in between",
"the next message hits the stale entry, whose cleanup removes the new subscription too",
"""//PRELUDE
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, p) = client(VarSeqKind::Seq2, 8, Duration::ZERO);
    let s = c.subscribe_raw(News::TOPIC_KEY, 4).await.unwrap();
    drop(s);
    let mut s = c.subscribe_raw(News::TOPIC_KEY, 4).await.unwrap();
    for i in 0..3u32 {
        p.reply(News::TOPIC_KEY, VarKeyKind::Key8, VarSeq::Seq1(0), &i);
        assert!(soon(s.recv()).await.is_some(), "ended at {i}");
    }
}
""")
seed('c10-resize-saturates','C10','header.rs',[
("""            (VarSeq::Seq4(s), VarSeqKind::Seq1) => {
                *self = VarSeq::Seq1((*s) as u8);""","""            (VarSeq::Seq4(s), VarSeqKind::Seq1) => {
                // never alias a smaller number
                *self = VarSeq::Seq1(u8::try_from(*s).unwrap_or(u8::MAX));""")],
"a 4-byte sequence number above 255 reduced to one byte",
"the reduction saturates instead of keeping the low byte",
"""//PRELUDE
fn main() {
    for v in [0u32, 255, 256, 0x1234, 0xABCD_EF12] {
        let mut s = VarSeq::Seq4(v);
        s.resize(VarSeqKind::Seq1);
        assert!(matches!(s, VarSeq::Seq1(x) if x == v as u8));
    }
}
""")
seed('c09-short-seq4-accepted','C09','header.rs',[
("""                let (seqbs, remain3) = remain.split_at_checked(4)?;
                remain = remain3;
                let mut buf = [0u8; 4];
                buf.copy_from_slice(seqbs);
                VarSeq::Seq4""","""                // the most significant bytes may have been left out
                let (seqbs, remain3) = remain.split_at(remain.len().min(4));
                remain = remain3;
                let mut buf = [0u8; 4];
                buf[..seqbs.len()].copy_from_slice(seqbs);
                VarSeq::Seq4""")],
"a frame cut off inside a 4-byte sequence number",
"the truncated frame is accepted as a header with a made-up sequence number",
"""//PRELUDE
fn main() {
    let h = VarHeader { key: VarKey::Key8(Add::REQ_KEY), seq_no: VarSeq::Seq4(0x01020304) };
    let v = h.write_to_vec();
    for n in 0..v.len() {
        assert!(VarHeader::take_from_slice(&v[..n]).is_none(), "prefix of {n}");
    }
    assert!(VarHeader::take_from_slice(&v).unwrap().0 == h);
}
""")
seed('c20-incomplete-report','C20',['server/mod.rs',H],[
('server/mod.rs',"""            if res.is_err() {
                err_ctr += 1;
            }
            msg_ctr += 1;
        }

        // Finally, reply""","""            if res.is_err() {
                err_ctr += 1;
                lost_in += 1;
            }
            msg_ctr += 1;
        }

        // Finally, reply"""),
('server/mod.rs',"""        let mut err_ctr = 0;
""","""        let mut err_ctr = 0;
        let mut lost_in = 0;
"""),
('server/mod.rs',"""                topics_in_sent: device_map.topics_in.len() as u32,""","""                topics_in_sent: device_map.topics_in.len() as u32 - lost_in,"""),
(H,"""        data_matches &= resp.errors == 0;""","""        // Errors are only fatal if nothing at all was sent
        data_matches &= resp.errors == 0 || resp.errors <= resp.topics_in_sent;""")],
"sending one of the device's incoming-topic descriptions fails while the schema is reported",
"the host returns a report without that topic instead of an error",
"""//PRELUDE
use postcard_rpc::standard_icd::*;
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, mut p) = client(VarSeqKind::Seq2, 8, Duration::ZERO);
    let t = tokio::spawn(async move { c.get_schema_report().await });
    let (h, _) = p.next().await;
    p.reply(GetAllSchemaDataTopic::TOPIC_KEY, VarKeyKind::Key8, VarSeq::Seq2(0), &OwnedSchemaData::Topic {
        path: "d/n".into(), key: News::TOPIC_KEY, direction: TopicDirection::ToServer });
    // a second incoming topic could not be sent
    p.reply(GetAllSchemasEndpoint::RESP_KEY, VarKeyKind::Key8, h.seq_no, &SchemaTotals {
        types_sent: 0, endpoints_sent: 0, topics_in_sent: 1, topics_out_sent: 0, errors: 1 });
    assert!(soon(t).await.unwrap().is_err());
}
""")
