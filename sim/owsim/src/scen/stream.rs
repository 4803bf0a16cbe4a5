//! The real StreamManager between writers and readers on one or several threads.
use crate::h::*;
use bytes::Bytes;
use simstd::sim;
use simstd::time::Duration;
use std::collections::BTreeMap;
use std::sync::Arc;
use sut::runtime::stream_manager::{StreamChunk, StreamManager};

fn tag(stream: u32, writer: u32, seq: u32) -> Bytes {
    Bytes::from(format!("{stream}:{writer}:{seq}"))
}
fn untag(b: &[u8]) -> Option<(u32, u32, u32)> {
    let s = std::str::from_utf8(b).ok()?;
    let v: Vec<u32> = s.split(':').filter_map(|x| x.parse().ok()).collect();
    if v.len() == 3 { Some((v[0], v[1], v[2])) } else { None }
}
/// Run an actor either as a task of this thread's LocalSet or on its own thread.
enum Join<T> {
    Task(tokio::task::JoinHandle<T>),
    Thread(tokio::sync::oneshot::Receiver<T>),
}
fn actor<T: Send + 'static, F: std::future::Future<Output = T> + 'static>(threads: bool, name: &str, f: impl FnOnce() -> F + Send + 'static) -> Join<T> {
    if threads {
        let (tx, rx) = tokio::sync::oneshot::channel();
        drop(spawn(name, move || {
            let _ = tx.send(local(async move { f().await }));
        }));
        Join::Thread(rx)
    } else {
        Join::Task(tokio::task::spawn_local(f()))
    }
}
impl<T> Join<T> {
    async fn get(self) -> Option<T> {
        match self {
            Join::Task(t) => t.await.ok(),
            Join::Thread(t) => t.await.ok(),
        }
    }
}
async fn nap(max_us: u64) {
    match sim::choose(4) {
        0 => tokio::task::yield_now().await,
        1 => {}
        _ => tokio::time::sleep(Duration::from_micros(sim::choose(max_us as u32) as u64)).await,
    }
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    Done,
    Error(String),
}
#[derive(Default)]
struct S {
    hwm: usize,
    /// per writer: sequence numbers of writes reported as accepted
    accepted: BTreeMap<u32, Vec<u32>>,
    /// per writer: sequence numbers ever offered
    offered: BTreeMap<u32, u32>,
    received: BTreeMap<u32, Vec<u32>>,
    n_acc: i64,
    n_rec: i64,
    reading: bool,
    end_offered: Option<End>,
    end_seen: Option<End>,
    after_end: u32,
}
impl S {
    fn accept(&mut self, uid: u32, w: u32, seq: u32) {
        self.accepted.entry(w).or_default().push(seq);
        self.n_acc += 1;
        let bound = self.hwm as i64 + self.reading as i64;
        oracle!("P05", self.n_acc - self.n_rec <= bound, "bound", "stream {uid}: {} chunks accepted, {} read: {} are buffered, limit {}", self.n_acc, self.n_rec, self.n_acc - self.n_rec, self.hwm);
        if self.n_acc - self.n_rec == self.hwm as i64 {
            sim::probe("stream.buffer_full");
        }
    }
    fn receive(&mut self, uid: u32, c: &StreamChunk) {
        self.n_rec += 1;
        if self.end_seen.is_some() {
            self.after_end += 1;
            oracle!("P04", false, "after-end", "stream {uid}: {c:?} arrived after the end {:?}", self.end_seen);
        }
        match c {
            StreamChunk::Data(b) => {
                let Some((u, w, seq)) = untag(b) else {
                    oracle!("P04", false, "corrupt", "stream {uid}: chunk {b:?} was never written");
                    return;
                };
                oracle!("P04", u == uid, "foreign", "stream {uid}: read chunk {u}:{w}:{seq} of another stream");
                let r = self.received.entry(w).or_default();
                oracle!("P04", !r.contains(&seq), "duplicate", "stream {uid}: chunk {w}:{seq} arrived twice");
                oracle!("P04", r.last().is_none_or(|l| *l < seq), "order", "stream {uid}: chunk {w}:{seq} arrived after {w}:{:?}", r.last());
                oracle!("P04", self.offered.get(&w).is_some_and(|o| seq <= *o), "invented", "stream {uid}: chunk {w}:{seq} was never written");
                r.push(seq);
                let missing: Vec<u32> = self.accepted.get(&w).into_iter().flatten().copied().filter(|s| *s < seq && !r.contains(s)).collect();
                oracle!("P04", missing.is_empty(), "lost", "stream {uid}: chunk {w}:{seq} arrived but the accepted {missing:?} before it did not");
            }
            StreamChunk::Done | StreamChunk::Error(_) => {
                let e = if let StreamChunk::Error(e) = c { End::Error(e.clone()) } else { End::Done };
                oracle!("P04", self.end_offered.as_ref() == Some(&e), "wrong-end", "stream {uid}: the writer ended with {:?}, the reader saw {e:?}", self.end_offered);
                self.end_seen = Some(e);
                for (w, a) in &self.accepted {
                    let r = self.received.get(w).cloned().unwrap_or_default();
                    let missing: Vec<u32> = a.iter().copied().filter(|s| !r.contains(s)).collect();
                    oracle!("P04", missing.is_empty(), "lost", "stream {uid}: the end arrived but the accepted chunks {w}:{missing:?} did not");
                }
            }
        }
    }
}

fn show(c: &Result<StreamChunk, String>) -> String {
    match c {
        Ok(StreamChunk::Data(b)) => format!("data {}", String::from_utf8_lossy(b)),
        Ok(StreamChunk::Done) => "done".into(),
        Ok(StreamChunk::Error(e)) => format!("error {e}"),
        Err(e) => format!("failed: {e}"),
    }
}

/// Delivery and backpressure: writers, then the end; one reader which may give
/// up waiting and come back, or take the receiver over.
pub fn deliver() {
    let threads = sim::draw_bool(1, 3);
    let nstreams = sim::draw_range(1, 2);
    let hwm = [1, 2, 3, 16][sim::draw(4) as usize];
    let m = if hwm == 16 && sim::draw_bool(1, 2) { Arc::new(StreamManager::new()) } else { Arc::new(StreamManager::with_high_water_mark(hwm)) };
    let run = move || async move {
        let mut joins = Vec::new();
        let mut rjoins = Vec::new();
        for uid in 0..nstreams {
            let id = m.create_stream(format!("s{uid}"));
            let st = Obs::new(S { hwm, ..Default::default() });
            let nw = sim::draw_range(1, 2);
            let nchunks = sim::draw_range(0, if hwm == 16 { 24 } else { 7 });
            let wpace = [0, 20, 200][sim::draw(3) as usize];
            let rpace = [0, 20, 200][sim::draw(3) as usize];
            let use_try = sim::draw_bool(1, 3);
            let takes = sim::draw_bool(1, 4);
            let impatient = !takes && sim::draw_bool(1, 2);
            let cancel_writes = sim::draw_bool(1, 4);
            let end = if sim::draw_bool(1, 3) { End::Error(format!("e{uid}")) } else { End::Done };
            let late_reader = sim::draw_bool(1, 4);
            let (m2, st2) = (m.clone(), st.clone());
            let end2 = end.clone();
            joins.push(actor(threads, "writers", move || async move {
                let mut ws = Vec::new();
                for w in 0..nw {
                    let (m, st) = (m2.clone(), st2.clone());
                    ws.push(tokio::task::spawn_local(async move {
                        for seq in 0..nchunks {
                            if wpace > 0 {
                                nap(wpace).await;
                            }
                            st.with(|s| s.offered.insert(w, seq));
                            let c = StreamChunk::Data(tag(uid, w, seq));
                            let ok;
                            if use_try && sim::choose(2) == 1 {
                                loop {
                                    let pre = st.with(|s| (s.n_acc - s.n_rec, s.reading));
                                    let r = m.try_write_chunk(id, c.clone());
                                    match &r {
                                        Ok(()) => {
                                            ok = true;
                                            break;
                                        }
                                        Err(e) => {
                                            sim::probe("stream.try_write_full");
                                            oracle!("P05", !(nw == 1 && !threads && !pre.1 && pre.0 < hwm as i64), "refused",
                                                "stream {uid}: write refused ({e}) with {} of {hwm} slots taken", pre.0);
                                            tokio::time::sleep(Duration::from_micros(1 + sim::choose(30) as u64)).await;
                                        }
                                    }
                                }
                            } else if cancel_writes && sim::rarely(3) {
                                let f = tokio::time::timeout(Duration::from_micros(sim::choose(40) as u64), m.write_chunk(id, c));
                                match f.await {
                                    Ok(r) => ok = r.is_ok(),
                                    Err(_) => {
                                        sim::probe("fault.write_cancelled");
                                        continue;
                                    }
                                }
                            } else {
                                let r = m.write_chunk(id, c).await;
                                oracle!("P04", r.is_ok(), "write-failed", "stream {uid}: a write to an open stream failed: {r:?}");
                                ok = r.is_ok();
                            }
                            slog!("stream {uid} writer {w} chunk {seq}: accepted {ok}");
                            if ok {
                                st.with(|s| s.accept(uid, w, seq));
                            }
                        }
                    }));
                }
                for w in ws {
                    let _ = w.await;
                }
                st2.with(|s| s.end_offered = Some(end2.clone()));
                let c = match &end2 {
                    End::Done => StreamChunk::Done,
                    End::Error(e) => StreamChunk::Error(e.clone()),
                };
                let r = m2.write_chunk(id, c).await;
                oracle!("P04", r.is_ok(), "write-failed", "stream {uid}: the end could not be written: {r:?}");
            }));
            let (m2, st2) = (m.clone(), st.clone());
            rjoins.push((
                uid,
                st.clone(),
                end,
                actor(threads, "reader", move || async move {
                    let (m, st) = (m2, st2);
                    if late_reader {
                        tokio::time::sleep(Duration::from_millis(50)).await;
                        // nobody has read: the buffer holds exactly what fits
                        st.with(|s| {
                            let total = (nw * nchunks) as i64;
                            oracle!("P05", s.n_acc <= hwm as i64, "bound", "stream {uid}: nothing was read and {} chunks were accepted, limit {hwm}", s.n_acc);
                            oracle!("P05", cancel_writes || threads || s.n_acc >= total.min(hwm as i64), "refused", "stream {uid}: nothing was read and only {} chunks were accepted, room for {hwm}", s.n_acc);
                        });
                    }
                    if takes {
                        let Some(mut rx) = m.take_receiver(id) else {
                            oracle!("P04", false, "no-receiver", "stream {uid}: the receiver of an open stream is gone");
                            return;
                        };
                        loop {
                            if rpace > 0 {
                                nap(rpace).await;
                            }
                            st.with(|s| s.reading = true);
                            let c = rx.recv().await;
                            let Some(c) = c else { break };
                            slog!("stream {uid}: {}", show(&Ok(c.clone())));
                            st.with(|s| {
                                s.receive(uid, &c);
                                s.reading = false;
                            });
                            if st.with(|s| s.end_seen.is_some()) {
                                break;
                            }
                        }
                        return;
                    }
                    loop {
                        if rpace > 0 {
                            nap(rpace).await;
                        }
                        st.with(|s| s.reading = true);
                        let r = if impatient && sim::rarely(3) {
                            match tokio::time::timeout(Duration::from_micros(sim::choose(60) as u64), m.read_chunk(id)).await {
                                Ok(r) => r,
                                Err(_) => {
                                    sim::probe("fault.read_cancelled");
                                    slog!("stream {uid}: reader gave up waiting");
                                    continue;
                                }
                            }
                        } else {
                            m.read_chunk(id).await
                        };
                        slog!("stream {uid}: {}", show(&r));
                        match r {
                            Ok(c) => st.with(|s| {
                                s.receive(uid, &c);
                                s.reading = false;
                            }),
                            Err(e) => {
                                oracle!("P04", false, "stream-lost", "stream {uid}: reading an open stream failed: {e}");
                                return;
                            }
                        }
                        if st.with(|s| s.end_seen.is_some()) {
                            let r = m.read_chunk(id).await;
                            oracle!("P04", r.is_err(), "after-end", "stream {uid}: a read after the end returned {}", show(&r));
                            return;
                        }
                    }
                }),
            ));
        }
        for j in joins {
            j.get().await;
        }
        for (uid, st, end, j) in rjoins {
            j.get().await;
            st.with(|s| {
                oracle!("P04", s.end_seen.as_ref() == Some(&end), "no-end", "stream {uid}: the reader never saw the end");
            });
        }
    };
    local(run());
}

#[derive(Default)]
struct C {
    open: BTreeMap<u64, bool>,
}

/// Streams that go away under their users: closed, receiver dropped, readers
/// and writers in flight.
pub fn close() {
    let threads = sim::draw_bool(1, 3);
    let hwm = sim::draw_range(1, 3) as usize;
    let m = Arc::new(StreamManager::with_high_water_mark(hwm));
    let n = sim::draw_range(1, 3);
    local(async move {
        let mut joins = Vec::new();
        let mut closed_ids = Vec::new();
        for uid in 0..n {
            let id = m.create_stream(format!("s{uid}"));
            let st: Obs<(bool, u32)> = Obs::new((false, 0)); // gone?, writes failed after it
            let nw = sim::draw_range(1, 2);
            let nchunks = sim::draw_range(1, 8);
            let takes = sim::draw_bool(1, 3);
            let when = sim::draw(200) as u64;
            let reads = sim::draw(5);
            let self_close = sim::draw_bool(1, 3);
            let done = sim::draw_bool(1, 2);
            let stops = sim::draw_bool(1, 2);
            for w in 0..nw {
                let (m, st) = (m.clone(), st.clone());
                joins.push(actor(threads, "writer", move || async move {
                    for seq in 0..nchunks {
                        nap(60).await;
                        let gone = st.with(|s| s.0);
                        let use_try = sim::choose(3) == 1;
                        let c = StreamChunk::Data(tag(uid, w, seq));
                        let r = if use_try { m.try_write_chunk(id, c) } else { m.write_chunk(id, c).await };
                        slog!("stream {uid} writer {w} chunk {seq}: {r:?} (gone before: {gone})");
                        if gone {
                            oracle!("P06", r.is_err(), "write-after-close", "stream {uid}: a write after the consumer had gone was accepted");
                            sim::probe("stream.write_after_close");
                            oracle!("P06", !m.has_sender(id), "still-open", "stream {uid}: still reported open after a write failed because the consumer had gone");
                        }
                    }
                    if done {
                        let gone = st.with(|s| s.0);
                        let r = m.write_chunk(id, StreamChunk::Done).await;
                        if gone {
                            oracle!("P06", r.is_err(), "write-after-close", "stream {uid}: the end was accepted after the consumer had gone");
                        }
                    }
                }));
            }
            let (m2, st2) = (m.clone(), st.clone());
            joins.push(actor(threads, "consumer", move || async move {
                let (m, st) = (m2, st2);
                if takes {
                    let Some(mut rx) = m.take_receiver(id) else { return };
                    for _ in 0..reads {
                        let _ = tokio::time::timeout(Duration::from_micros(80), rx.recv()).await;
                    }
                    tokio::time::sleep(Duration::from_micros(when)).await;
                    drop(rx);
                    sim::probe("fault.consumer_dropped");
                    st.with(|s| s.0 = true);
                    slog!("stream {uid}: consumer gone");
                } else {
                    // read until it fails; somebody else closes meanwhile
                    let mut k = 0;
                    loop {
                        let r = m.read_chunk(id).await;
                        slog!("stream {uid}: {}", show(&r));
                        match r {
                            Ok(StreamChunk::Data(_)) => {}
                            _ => break,
                        }
                        k += 1;
                        if stops && k > reads {
                            break;
                        }
                        if self_close && k > reads {
                            m.close_stream(id);
                            st.with(|s| s.0 = true);
                            sim::probe("fault.stream_closed");
                            slog!("stream {uid}: closed by its reader");
                            break;
                        }
                        nap(50).await;
                    }
                }
            }));
            if !takes {
                let (m, st) = (m.clone(), st.clone());
                joins.push(actor(threads, "closer", move || async move {
                    tokio::time::sleep(Duration::from_micros(when)).await;
                    m.close_stream(id);
                    sim::probe("fault.stream_closed");
                    slog!("stream {uid}: closed");
                    st.with(|s| s.0 = true);
                    oracle!("P06", !m.has_sender(id), "still-open", "stream {uid}: still reported open after it was closed");
                    oracle!("P06", m.get_stream_info(id).is_none(), "still-open", "stream {uid}: its record survived the close");
                }));
                closed_ids.push((uid, id));
            }
        }
        // every actor comes back: a blocked writer or reader of a dead stream is
        // a deadlock here
        for j in joins {
            j.get().await;
        }
        for (uid, id) in closed_ids {
            oracle!("P06", m.take_receiver(id).is_none(), "zombie", "stream {uid}: closed, but its receiver is still held");
            oracle!("P06", !m.has_sender(id), "zombie", "stream {uid}: closed, but its sender is still held");
            let r = m.read_chunk(id).await;
            oracle!("P06", r.is_err(), "zombie", "stream {uid}: closed, but a read returned {}", show(&r));
        }
    });
}

/// Requests that reuse one manager: everything of the earlier request is cut
/// off by clear(), whatever was still running.
pub fn reuse() {
    let threads = sim::draw_bool(1, 4);
    let hwm = sim::draw_range(1, 3) as usize;
    let gens = sim::draw_range(2, 3);
    let m = Arc::new(StreamManager::with_high_water_mark(hwm));
    let cur: Obs<u32> = Obs::new(0);
    local(async move {
        let mut joins = Vec::new();
        let mut uid = 0u32;
        for g in 0..gens {
            let n = sim::draw_range(1, 3);
            let last = g + 1 == gens;
            let mut mine = Vec::new();
            for _ in 0..n {
                uid += 1;
                let u = uid;
                let pump = sim::draw_bool(1, 3);
                let nchunks = sim::draw_range(1, 6);
                let slow = sim::draw_bool(1, 2);
                let id;
                if pump {
                    let (tx, rx) = tokio::sync::mpsc::channel(2);
                    id = m.pump_request_body(rx);
                    joins.push(actor(false, "source", move || async move {
                        for seq in 0..nchunks {
                            if slow {
                                nap(150).await;
                            }
                            if tx.send(Ok(tag(u, 0, seq))).await.is_err() {
                                break;
                            }
                        }
                    }));
                } else {
                    id = m.create_stream(format!("s{u}"));
                    let (m, cur) = (m.clone(), cur.clone());
                    joins.push(actor(threads, "writer", move || async move {
                        for seq in 0..nchunks {
                            if slow {
                                nap(150).await;
                            }
                            let stale = cur.with(|c| *c != g);
                            let c = StreamChunk::Data(tag(u, 0, seq));
                            let mut r = if sim::choose(3) == 1 { m.try_write_chunk(id, c.clone()) } else { Err("backpressure".into()) };
                            if r.as_ref().is_err_and(|e| e.contains("backpressure")) {
                                r = m.write_chunk(id, c).await;
                            }
                            slog!("stream {u} (request {g}) chunk {seq}: {r:?} (stale {stale})");
                            if stale {
                                sim::probe("stream.stale_write");
                                oracle!("P07", r.is_err(), "stale-write", "stream {u} of request {g}: a write was accepted after the request's streams were cleared");
                            }
                        }
                        let stale = cur.with(|c| *c != g);
                        let r = m.write_chunk(id, StreamChunk::Done).await;
                        if stale {
                            oracle!("P07", r.is_err(), "stale-write", "stream {u} of request {g}: its end was accepted after the request's streams were cleared");
                        }
                    }));
                }
                slog!("request {g}: stream {u} created");
                mine.push((u, id));
                let m = m.clone();
                let cur = cur.clone();
                joins.push(actor(threads, "reader", move || async move {
                    let mut next = 0;
                    loop {
                        if slow {
                            nap(60).await;
                        }
                        let stale = cur.with(|c| *c != g);
                        let r = m.read_chunk(id).await;
                        slog!("stream {u} (request {g}): {} (stale {stale})", show(&r));
                        match r {
                            Ok(StreamChunk::Data(b)) => {
                                let t = untag(&b);
                                oracle!("P07", t.is_some_and(|t| t.0 == u), "cross-talk", "stream {u} of request {g} read the chunk {t:?} of another stream");
                                if stale {
                                    oracle!("P07", false, "stale-read", "stream {u} of request {g} delivered data on a read begun after the request's streams were cleared");
                                }
                                if let Some(t) = t {
                                    oracle!("P07", !last || t.2 == next, "stolen", "stream {u} of the last request: expected chunk {next}, read {}", t.2);
                                    next = t.2 + 1;
                                }
                            }
                            Ok(_) => {
                                oracle!("P07", !(last && cur.with(|c| *c == g)) || next == nchunks, "cut-short", "stream {u} of the last request ended after {next} of {nchunks} chunks");
                                break;
                            }
                            Err(e) => {
                                oracle!("P07", !(last), "cut-short", "stream {u} of the last request failed: {e}");
                                break;
                            }
                        }
                    }
                }));
            }
            if !last {
                nap(300).await;
                m.clear();
                cur.with(|c| *c += 1);
                sim::probe("fault.streams_cleared");
                slog!("request {g} over: streams cleared");
                for (u, id) in mine {
                    oracle!("P07", !m.has_sender(id), "survived", "stream {u} of request {g} is still open after the clear");
                    oracle!("P07", m.get_stream_info(id).is_none(), "survived", "stream {u} of request {g} is still known after the clear");
                }
                oracle!("P07", m.active_count() == 0, "survived", "{} streams are active after the clear", m.active_count());
            }
        }
        for j in joins {
            j.get().await;
        }
    });
}

/// A streaming request body pumped from its source into a stream.
pub fn pump() {
    let hwm = sim::draw_range(1, 4) as usize;
    let cap = sim::draw_range(1, 3) as usize;
    let nchunks = sim::draw_range(0, 8);
    let fails = sim::draw_bool(1, 3);
    let extra = fails && sim::draw_bool(1, 2);
    let takes = sim::draw_bool(1, 2);
    let leaves = sim::draw_bool(1, 3);
    let leave_after = sim::draw(6);
    let (wp, rp) = (sim::draw(3) as u64 * 40, sim::draw(3) as u64 * 40);
    let m = Arc::new(StreamManager::with_high_water_mark(hwm));
    let sent: Obs<u32> = Obs::new(0);
    let got: Obs<(u32, Option<StreamChunk>, bool)> = Obs::new((0, None, false)); // read, end, reading
    local(async move {
        let (tx, rx) = tokio::sync::mpsc::channel(cap);
        let id = m.pump_request_body(rx);
        let (s2, g2) = (sent.clone(), got.clone());
        let source = tokio::task::spawn_local(async move {
            for seq in 0..nchunks {
                if wp > 0 {
                    nap(wp).await;
                }
                if tx.send(Ok(tag(1, 0, seq))).await.is_err() {
                    sim::probe("stream.source_told_closed");
                    return false;
                }
                s2.with(|s| *s += 1);
                let (s, (r, _, reading)) = (s2.with(|s| *s), g2.with(|g| g.clone()));
                // source channel + one chunk in the pump's hand + stream buffer
                oracle!("P08", s as usize <= r as usize + cap + 1 + hwm + reading as usize, "unbounded", "the pump took {s} chunks while {r} were read (source buffer {cap}, stream buffer {hwm})");
            }
            if fails {
                let _ = tx.send(Err("upstream reset".into())).await;
                if extra {
                    let _ = tx.send(Ok(tag(1, 0, 999))).await;
                }
            }
            true
        });
        let mut rx = if takes { m.take_receiver(id) } else { None };
        oracle!("P08", !takes || rx.is_some(), "no-receiver", "the body stream has no receiver");
        let mut next = 0;
        let mut end: Option<StreamChunk> = None;
        loop {
            if rp > 0 {
                nap(rp).await;
            }
            if leaves && next == leave_after {
                if takes {
                    drop(rx.take());
                } else {
                    m.close_stream(id);
                }
                sim::probe("fault.consumer_dropped");
                slog!("the consumer left after {next} chunks");
                break;
            }
            got.with(|g| g.2 = true);
            let c = match &mut rx {
                Some(rx) => rx.recv().await.ok_or("closed".to_string()),
                None => m.read_chunk(id).await,
            };
            slog!("body: {}", show(&c));
            match c {
                Ok(StreamChunk::Data(b)) => {
                    let t = untag(&b);
                    oracle!("P08", end.is_none(), "after-end", "the chunk {t:?} arrived after the end {end:?}");
                    oracle!("P08", t == Some((1, 0, next)), "order", "expected chunk {next}, read {t:?}");
                    next += 1;
                }
                Ok(e) => {
                    oracle!("P08", end.is_none(), "two-ends", "the body ended with {end:?} and then again with {e:?}");
                    oracle!("P08", next == nchunks, "cut-short", "the body ended ({e:?}) after {next} of {nchunks} chunks");
                    oracle!("P08", matches!((&e, fails), (StreamChunk::Done, false) | (StreamChunk::Error(_), true)), "wrong-end", "source failed: {fails}, the reader saw {e:?}");
                    if let StreamChunk::Error(t) = &e {
                        oracle!("P08", t.contains("upstream reset"), "wrong-end", "the error became {t:?}");
                    }
                    end = Some(e);
                    if !takes {
                        break;
                    }
                    // a consumer holding the receiver looks at what follows
                    m.close_stream(id);
                }
                Err(e) => {
                    oracle!("P08", end.is_some(), "no-end", "the body stopped without an end after {next} chunks: {e}");
                    break;
                }
            }
            got.with(|g| {
                g.0 = next;
                g.2 = false;
            });
        }
        let _ = source.await;
    });
}
