//! What must hold: while a script speaks, when a request ends, and afterwards.
use super::world::*;
use openworkers_core::*;
use owsim::h::MS;
use simstd::sim;
use std::collections::BTreeSet;

pub struct Rules {
    pub wall_ms: u64,
    pub cpu_ms: u64,
}

/// A script called console.log. The script is on the stack: time may pass here.
pub fn heard(uid: usize, message: &str) {
    if let Some(what) = message.strip_prefix("top ") {
        return top(uid, what);
    }
    let Some(rest) = message.strip_prefix('@') else {
        slog!("console: {message}");
        // what a hostile script says takes a while: it reaches its limit, and not ours
        let hostile = with(|w| w.reqs.values_mut().find(|r| r.hostile()).map(|r| r.burned += MS / 10));
        if hostile.is_some() {
            sim::burn(MS / 10, MS / 10, || false);
        }
        return;
    };
    let (id, what) = rest.split_once(' ').unwrap_or((rest, ""));
    let Ok(id) = id.parse::<u32>() else { return };
    let now = sim::now();
    let Some(hostile) = with(|w| w.reqs.get(&id).map(|r| r.hostile())) else { return };
    if hostile {
        slog!("script {id}: {what}");
        sim::probe("script.hostile");
        return;
    }
    if what == "burn" {
        let over = req(id, |r| {
            r.burned += MS;
            r.burned_alone += sim::alone() as u64 * MS;
            r.over()
        });
        oracle!("P32", !over, "runs-on", "the script of request {id} burned CPU after the request had ended");
        sim::burn(MS, 200_000, || false);
        return;
    }
    if what == "ate" {
        req(id, |r| r.ate_at = Some(now));
        sim::burn(MS / 50, MS / 50, || false);
        return;
    }
    slog!("script {id}: {what}");
    sim::note(id as u64);
    let (over, current) = with(|w| {
        let cur = w.current.get(&uid).copied();
        let r = w.reqs.get_mut(&id).unwrap();
        r.said.push((now, what.to_string()));
        (r.over(), cur)
    });
    oracle!("P32", !over, "runs-on", "the script of request {id} said \"{what}\" after the request had ended");
    oracle!("P24", current == Some(id), "wrong-handle", "request {id} said \"{what}\" through the operations of request {current:?}");
    let mut words = what.split(' ');
    match words.next().unwrap() {
        "start" => {
            let (me, env, served) = (words.next().unwrap().to_string(), words.next().unwrap().to_string(), words.next().unwrap().parse::<u32>().unwrap());
            started(uid, id, Start { me, env, served, isolate: realv8::current_isolate() });
        }
        "ws" => {
            let tag = words.next().unwrap().to_string();
            let verb = words.next().unwrap();
            let rest = what.splitn(4, ' ').nth(3).unwrap_or("");
            ws_said(id, &tag, verb, rest);
        }
        "saw" => {
            let want = req(id, |r| format!("saw {} {} h{id}", r.method().as_str(), r.url()));
            oracle!("P33", what == want, "wrong-request", "the script of request {id} {what} instead of {want}");
        }
        "tset" | "tfire" | "tclear" | "tend" => timer(id, &words.collect::<Vec<_>>(), what),
        "bufs" => {
            let n: u32 = words.next().unwrap().parse().unwrap();
            let name = words.next();
            sim::probe(if name.is_some() { "limit.buffers" } else { "buffers.held" });
            oracle!("P31", n <= 24, "buffers-over-limit", "request {id} was given {n} MB of ArrayBuffers, its isolate's limit is 24 MB");
            // (when V8 frees what was too much before is its own business)
            let much = with(|w| w.reqs.values().any(|r| r.prog.has(|o, _| matches!(o, Op::Buffers(20.., true)))));
            oracle!("P31", name.is_none() || (much || n + 12 >= 24) && name == Some("RangeError"), "buffers-refused", "request {id} was refused an ArrayBuffer of 1 MB ({name:?}) after {n}, its isolate's limit is 24 MB");
        }
        "odd" => {
            sim::probe("call.odd_settled");
            oracle!("P25", !what.ends_with("late"), "never-settles", "a call of request {id} was not settled within 3 s, and its host had answered at once: {what}");
        }
        "shares" => {
            oracle!("P24", false, "shared-memory", "the context of request {id} has SharedArrayBuffer or Atomics");
        }
        "lacks" => {
            oracle!("P24", false, "missing-api", "the context of request {id} {what}");
        }
        "args" => {
            oracle!("P18", false, "wrong-args", "a timer of request {id} was given {what}");
        }
        "zombie" => {
            oracle!("P18", false, "cleared-timer-fired", "a timer that request {id} had cleared ran");
        }
        "got" | "fail" | "head" => {
            let kind = what.split(' ').next().unwrap();
            let tag = words.next().unwrap().to_string();
            let text = what.splitn(3, ' ').nth(2).unwrap_or("").to_string();
            let c = req(id, |r| {
                let c = r.calls.get_mut(&tag);
                if kind != "head" {
                    if let Some(c) = c {
                        c.results.push(text.clone());
                        return Some(c.clone());
                    }
                    None
                } else {
                    c.cloned()
                }
            });
            let Some(c) = c else {
                oracle!("P25", false, "result-without-call", "request {id} was given a result for {tag}, which never reached the operations handler: {what}");
                return;
            };
            oracle!("P25", c.answered.is_some(), "result-before-answer", "request {id} was given \"{what}\" before {tag} had been answered");
            if kind == "head" {
                let h = up_headers(id, &tag);
                let cookies: Vec<&str> = h[1..].iter().map(|h| h.1.as_str()).collect();
                let s = up_status(id, &tag);
                let s = format!("{s} {} {} {}", s < 300, h[0].1, serde_json::json!(cookies));
                oracle!("P25", text == s, "wrong-result", "request {id}: the head of the answer to {tag} came as {text}, it was {s}");
                return;
            }
            oracle!("P25", c.results.len() == 1, "result-twice", "request {id} was given two results for {tag}: {:?}", c.results);
            match expected(id, &tag, &c) {
                Ok(e) => {
                    oracle!("P25", kind == "got" && text == e, "wrong-result", "request {id} asked for {tag} and was given \"{what}\"; the answer was \"{e}\"");
                }
                Err(e) => {
                    oracle!("P25", kind == "fail" && text.contains(&e), "wrong-result", "request {id} asked for {tag} and was given \"{what}\"; it had failed with \"{e}\"");
                }
            }
        }
        _ => {}
    }
}

fn ws_said(id: u32, tag: &str, verb: &str, rest: &str) {
    let now = sim::now();
    let form = number(tag) % 4;
    let s = req(id, |r| {
        let s = r.socks.get_mut(tag);
        s.map(|s| {
            let before = s.clone();
            match verb {
                "open" => s.opened = Some(now),
                "fail" => s.failed = true,
                "in" => s.heard += 1,
                "error" => s.errors += 1,
                "out" => s.said.push(now),
                "closing" => s.closing = Some(now),
                "close" => s.told = Some(now),
                "end" => s.end = Some(now),
                _ => {}
            }
            before
        })
    });
    let Some(s) = s else {
        // (a script that cannot be heard has not called)
        oracle!("P38", verb == "end", "result-without-call", "the WebSocket {id}/{tag} never reached the operations handler, and its script was told: {verb} {rest}");
        return;
    };
    let ctx = || format!("WebSocket {id}/{tag} ({s:?}): its script was told: {verb} {rest}");
    let opens = matches!(s.peer, Peer::Opens(..));
    if verb != "end" {
        oracle!("P38", s.answered.is_some(), "result-before-answer", "{}", ctx());
        oracle!("P38", s.told.is_none() && !s.failed, "after-end", "{}", ctx());
    }
    match verb {
        "zombie" => {
            oracle!("P38", false, "removed-listener-called", "{}", ctx());
        }
        "open" => {
            oracle!("P38", opens && s.opened.is_none() && form != 3 && rest == if form == 0 { "1" } else { "101" }, "wrong-outcome", "{}", ctx());
        }
        "fail" => {
            let e = if let Peer::Err = s.peer { up_err(id, tag) } else { "nexpected".into() };
            oracle!("P38", !opens && rest.contains(&e), "wrong-outcome", "{}", ctx());
        }
        "in" => {
            let k = s.heard;
            oracle!("P38", s.opened.is_some() && (k as usize) < s.sent.len() && rest == ws_in(id, tag, k), "in-altered", "message {k} was {:?}: {}", ws_in(id, tag, k), ctx());
        }
        "state" => {
            oracle!("P38", rest == "2", "wrong-state", "{}", ctx());
        }
        "error" => {
            let e = match s.peer {
                Peer::Err => up_err(id, tag),
                Peer::Opens(_, PeerEnd::Fails) if s.opened.is_some() => "broken".into(),
                Peer::Opens(..) => "?".into(),
                _ => "nexpected".into(),
            };
            oracle!("P38", s.errors == 0 && rest.contains(&e), "wrong-error", "{}", ctx());
        }
        "close" => {
            let all = s.heard as usize == s.sent.len();
            let peer = s.ended.is_some() && all
                && match s.peer {
                    Peer::Opens(_, PeerEnd::Leaves) => rest == "3 true 1001 left",
                    Peer::Opens(_, PeerEnd::Fails) => rest == "3 false 1006 broken" && s.errors == 1,
                    Peer::Opens(_, PeerEnd::Vanishes) => rest.starts_with("3 false 1006"),
                    _ => false,
                };
            let own = s.closing.is_some() && rest == format!("3 true {} bye {id}/{tag}", 4000 + id);
            let refused = s.opened.is_none() && (form == 0 && !opens && s.errors == 1 || form == 3) && rest.starts_with("3 false 1006");
            sim::probe(if own { "ws.script_closed" } else if refused { "ws.refused" } else { "ws.peer_closed" });
            oracle!("P38", peer || own || refused, "wrong-close", "{}", ctx());
        }
        _ => {}
    }
}
/// A script set, cleared or saw a timer.
fn timer(id: u32, words: &[&str], what: &str) {
    let now = sim::now();
    let verb = what.split(' ').next().unwrap();
    let k: u32 = words[0].parse().unwrap();
    let burned = with(|w| w.reqs.values().map(|q| q.burned).sum::<u64>());
    let all = req(id, |r| {
        if verb == "tset" {
            let mut tm = None;
            r.prog.visit(&mut |o, _| {
                if let Op::Timers(first, v, _) = o {
                    tm = tm.take().or(k.checked_sub(*first).and_then(|i| v.get(i as usize)).cloned());
                }
            });
            r.timers.insert(k, TmRec { tm: tm.unwrap(), set: now, fired: vec![], cleared: None });
        }
        let before = r.timers.clone();
        if let Some(t) = r.timers.get_mut(&k) {
            match verb {
                "tfire" => t.fired.push(now),
                "tclear" => t.cleared = Some(now),
                _ => {}
            }
        }
        before
    });
    if verb == "tend" {
        let n: u32 = words[1].parse().unwrap();
        for (j, t) in all.range(k..k + n) {
            let prop = if t.tm.ticks > 0 { "P19" } else { "P18" };
            let times = t.tm.ticks.max(1) as usize;
            let due = t.set + t.tm.delay() * times as u64 * MS + 30 * MS + burned;
            oracle!(prop, t.cleared.is_some() || t.fired.len() >= times || now <= due, "timer-lost", "timer {j} of request {id} ({t:?}) should have fired {times} times: it is {:.2} ms", now as f64 / MS as f64);
        }
        return;
    }
    let Some(t) = all.get(&k) else { return };
    if verb != "tfire" {
        return;
    }
    let prop = if t.tm.ticks > 0 { "P19" } else { "P18" };
    let ctx = || format!("timer {k} of request {id} ({t:?}) fires at {:.3} ms ({what})", now as f64 / MS as f64);
    let n = t.fired.len() as u64 + 1;
    oracle!(prop, words.get(1) == Some(&words[0]), "wrong-args", "{}", ctx());
    oracle!("P18", t.cleared.is_none(), "cleared-timer-fired", "{}", ctx());
    oracle!(prop, t.tm.ticks > 0 || t.fired.is_empty(), "fired-twice", "{}", ctx());
    let due = t.set + n * t.tm.delay() * MS;
    oracle!(prop, now >= due, "fired-early", "{}", ctx());
    oracle!(prop, now <= due + 40 * MS + burned, "fired-late", "{}", ctx());
    if t.tm.ticks == 0 {
        for (j, o) in all.iter().filter(|o| o.1.tm.ticks == 0 && o.1.fired.is_empty() && o.1.cleared.is_none()) {
            oracle!("P18", o.set + o.tm.delay() * MS + 5 * MS + burned >= due, "wrong-order", "timer {j} ({o:?}) has not fired: {}", ctx());
        }
    }
    sim::probe(if t.tm.ticks > 0 { "timer.interval" } else { "timer.timeout" });
}
/// What must have got through, a while ago.
fn ws_done(r: &Req, at: u64, burned: u64) {
    for (tag, s) in &r.socks {
        let id = r.id;
        let ctx = || format!("WebSocket {id}/{tag} ({s:?}) of a request that ended at {:.2} ms; it said {}", at as f64 / MS as f64, first_lines(&r.said));
        let soon = 100 * MS + burned;
        let old = |t: u64| t + soon < at;
        let form = number(tag) % 4;
        let opens = matches!(s.peer, Peer::Opens(..));
        if s.answered.is_some_and(old) {
            oracle!("P38", s.opened.is_some() || s.failed || s.told.is_some(), "no-outcome", "{}", ctx());
        }
        if !opens || form == 3 {
            oracle!("P38", !opens || !s.told.is_some_and(old) || s.close_got == 1, "close-lost", "{}", ctx());
            continue;
        }
        // (what a script's close overtakes is lost)
        let accepted = s.opened.is_some_and(|t| t + 20 * MS + burned < at) && s.closing.is_none();
        let due = s.sent.iter().filter(|t| old(**t)).count();
        oracle!("P38", !accepted || s.heard as usize >= due, "in-lost", "{due} messages of the peer are due: {}", ctx());
        oracle!("P38", !accepted || !s.ended.is_some_and(old) || s.told.is_some(), "end-not-told", "{}", ctx());
        oracle!("P38", !s.closing.is_some_and(old) || s.told.is_some(), "own-close-not-told", "{}", ctx());
        if s.ended.is_none() {
            let due = s.said.iter().filter(|t| old(**t)).count();
            oracle!("P38", s.got as usize >= due, "out-lost", "{due} messages of the script are due: {}", ctx());
            oracle!("P38", !s.closing.is_some_and(old) || s.close_got == 1, "close-lost", "{}", ctx());
        }
        if s.closing.is_none() && s.ended.is_none() && old(s.answered.unwrap_or(at)) {
            // (it may be going with its request now)
            oracle!("P38", s.open || s.told.is_none(), "closed-by-nobody", "{}", ctx());
        }
    }
}

/// A script speaks while it is loaded.
fn top(uid: usize, what: &str) {
    let id = with(|w| w.current.get(&uid).copied()).unwrap();
    let over = req(id, |r| {
        if what == "burn" {
            r.burned += MS;
            r.burned_alone += sim::alone() as u64 * MS;
        } else {
            r.ate_at = Some(sim::now());
        }
        r.over()
    });
    oracle!("P32", !over, "runs-on", "the script of request {id} burned CPU after the request had ended");
    let t = if what == "burn" { MS } else { MS / 50 };
    sim::burn(t, if what == "burn" { 200_000 } else { t }, || false);
}

fn started(uid: usize, id: u32, s: Start) {
    let (r, ctx, max_reuses, iso_owner, sharing, concurrent) = with(|w| {
        let r = w.reqs[&id].clone();
        let ctx = w.contexts.entry(uid).or_insert((s.me.clone(), s.env.clone())).clone();
        let iso_owner = *w.iso_owner.entry(s.isolate).or_insert(r.owner);
        w.reqs.get_mut(&id).unwrap().start = Some(s.clone());
        let sharing = w.reqs.values().filter(|q| !q.over() && q.start.as_ref().is_some_and(|x| x.isolate == s.isolate)).count();
        (r, ctx, w.max_reuses, iso_owner, sharing, w.concurrent)
    });
    sim::probe(if s.served > 1 { "pool.warm" } else { "pool.cold" });
    if sharing > 1 {
        sim::probe("pool.shared_isolate");
    }
    oracle!("P24", r.start.is_none(), "started-twice", "the handler of request {id} was called twice");
    oracle!("P23", iso_owner == r.owner, "isolate-shared", "request {id} of owner {} runs in an isolate that owner {iso_owner} used", r.owner);
    oracle!("P23", s.me.split('/').next() == r.me.split('/').next(), "foreign-code", "request {id} of {} was handled by the code of {}", r.me, s.me);
    oracle!("P24", s.me == r.me, "wrong-code", "request {id} was sent to {} and handled by {}", r.me, s.me);
    oracle!("P24", s.env == r.env.to_string(), "wrong-env", "request {id} was sent with environment {} and saw {}", r.env, s.env);
    oracle!("P24", ctx.0 == s.me, "context-changed", "a context of {} now runs {}", ctx.0, s.me);
    oracle!("P24", s.served <= max_reuses.max(1), "reused-too-often", "a context serves its request number {}, the limit is {max_reuses}", s.served);
    // (a script without a task handler does not count the tasks it is given)
    let uncounted = s.served == 1 && r.style >= 5;
    oracle!("P24", uncounted || r.warm_calls == (s.served > 1) as u32, "warm-callback", "request {id} is the context's number {}, and the warm-hit callback was called {} times before", s.served, r.warm_calls);
    oracle!("P30", sharing <= concurrent, "too-many-per-isolate", "{sharing} requests run in one isolate, {concurrent} may");
    let (of_owner, of_thread, per_owner, stats) = with(|w| {
        let here: Vec<(usize, usize)> = w.reqs.values().filter(|q| !q.over() && q.thread == r.thread).filter_map(|q| q.start.as_ref().map(|x| (q.owner, x.isolate))).collect();
        let own: BTreeSet<usize> = here.iter().filter(|h| h.0 == r.owner).map(|h| h.1).collect();
        let all: BTreeSet<usize> = here.iter().map(|h| h.1).collect();
        (own.len(), all.len(), w.per_owner, w.stats)
    });
    if let Some((total, in_use, cap)) = stats.and_then(|f| f()) {
        oracle!("P30", total <= cap || in_use == total, "needless-isolate", "the pool may keep {cap} isolates and holds {total}, although only {in_use} are in use");
        oracle!("P30", per_owner.is_none_or(|n| of_owner <= n), "owner-over-share", "the requests of owner {} run in {of_owner} isolates at once, it may have {per_owner:?}", r.owner);
        oracle!("P30", of_thread <= in_use && in_use <= total, "isolate-unaccounted", "requests run in {of_thread} isolates of this thread, the pool counts {in_use} of {total} as in use");
    }
}

/// Operations that may keep a request from ending by itself.
pub fn may_block(r: &Req) -> bool {
    r.prog.has(|o, _| matches!(o, Op::Hang | Op::Spin | Op::Eat))
        || matches!(r.top, Top::Spin | Top::SpinLater | Top::Eat)
        || r.calls.values().any(|c| matches!(c.answer, Answer::Hang | Answer::Stream(_, End::Open)))
        || r.socks.values().any(|s| matches!(s.peer, Peer::Hang))
        || matches!(&r.prog.resp, Resp::Stream { end: End::Open, .. })
        || (matches!(&r.prog.resp, Resp::Stream { .. } | Resp::Fwd(..) | Resp::Echo(Read::Stream)) && !matches!(r.client, Client::Reads(0)))
}
pub fn fails(r: &Req) -> bool {
    r.prog.has(|o, wu| !wu && matches!(o, Op::Throw(_)))
}
fn throws(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::Throw(_) => true,
        Op::Par(v) => v.iter().any(|x| throws(x)),
        _ => false,
    })
}
/// The handler does not get to its response.
fn no_resp(r: &Req) -> bool {
    fails(r) || (r.streamed == Some(End::Error) && matches!(&r.prog.resp, Resp::Echo(read) if *read != Read::Stream)) || matches!(&r.prog.resp, Resp::Fwd(_, t) if r.calls.get(t).is_some_and(|c| matches!(c.answer, Answer::Err | Answer::Odd)))
}

/// A context that served `before` is to serve request `id`.
pub fn fit(id: u32, before: &Req) {
    let ctx = || format!("the context that handled request {} ({:?} {:?}; it ended with {:?}) is to handle request {id}; it said {}", before.id, before.prog, before.client, before.done.as_ref().map(|d| &d.1), first_lines(&before.said));
    oracle!("P24", matches!(before.done, Some((_, Ok(())))), "unfit-context", "{}", ctx());
    before.prog.visit(&mut |o, _| {
        if let Op::Wu(n, v) = o {
            oracle!("P24", throws(v) || !before.said(&format!("wu {n}")) || before.said(&format!("wuend {n}")), "unfit-context", "waitUntil {n} was not over: {}", ctx());
        }
    });
}

/// execute_pinned (or exec) returned.
pub fn ended(id: u32, res: &Result<(), TerminationReason>, rules: &Rules) {
    let (r, active, burned, per_owner, concurrent) = with(|w| {
        let r = w.reqs[&id].clone();
        let active = w.reqs.values().filter(|q| q.owner == r.owner && q.exec_at.is_some() && !q.over()).count();
        let burned: u64 = w.reqs.values().map(|q| q.burned).sum();
        (r, active, burned, w.per_owner, w.concurrent)
    });
    let now = sim::now();
    let took = now - r.exec_at.unwrap();
    if r.hostile() {
        sim::probe(match res {
            Ok(()) => "hostile.ends",
            Err(TerminationReason::Exception(_)) => "hostile.fails",
            Err(_) => "hostile.cut",
        });
        return;
    }
    let wall = rules.wall_ms * MS;
    let ctx = || format!("request {id} ({}, {:?} {:?}, took {:.2} ms) ended with {res:?}; it said {}", r.me, r.prog, r.client, took as f64 / MS as f64, first_lines(&r.said));
    match res {
        Ok(()) => {
            oracle!("P26", matches!(r.top, Top::Nothing | Top::Burn), "bad-script-served", "its script cannot be loaded ({:?}): {}", r.top, ctx());
            let blocked = r.prog.has(|o, wu| !wu && matches!(o, Op::Hang | Op::Spin | Op::Eat));
            oracle!(if r.task { "P34" } else { "P26" }, !blocked || fails(&r) || (r.task && r.style >= 5), "ended-early", "{}", ctx());
            if r.task {
                oracle!("P34", r.style >= 5 || fails(&r) || r.said("resp"), "ended-early", "{}", ctx());
                oracle!("P34", r.style < 5 || r.start.is_none(), "wrong-handler", "{}", ctx());
            } else {
                oracle!("P26", no_resp(&r) || r.said("resp"), "ended-early", "{}", ctx());
            }
            if !may_block(&r) && took < wall && r.start.is_some() {
                let mut missing = None;
                r.prog.visit(&mut |o, wu| {
                    if let Op::Wu(n, v) = o {
                        // (one inside another that failed may never have been there)
                        if !throws(v) && !r.said(&format!("wuend {n}")) && (!wu || r.said(&format!("wu {n}"))) {
                            missing = Some(*n);
                        }
                    }
                });
                // a handler that failed may not have got to its waitUntil calls
                if let Some(n) = missing.filter(|n| !fails(&r) || r.said(&format!("wu {n}"))) {
                    oracle!("P29", false, "waituntil-cut", "the work given to waitUntil ({n}) had not settled when {}", ctx());
                }
            }
        }
        Err(TerminationReason::Exception(s)) if r.top == Top::Throw && s.contains("top boom") => sim::probe("top.throws"),
        Err(TerminationReason::Exception(s)) if r.top == Top::Syntax && s.contains("SyntaxError") => sim::probe("top.syntax"),
        Err(TerminationReason::Other(s)) if s == "Pool at capacity" => {
            sim::probe("pool.at_capacity");
            oracle!("P30", per_owner.is_some_and(|n| active > n * concurrent), "refused", "request {id} was refused although its owner has {} requests running and may have {per_owner:?} isolates of {concurrent}", active - 1);
        }
        Err(TerminationReason::WallClockTimeout) => {
            sim::probe("limit.wall");
            oracle!("P31", took >= wall, "wall-early", "the limit is {} ms: {}", rules.wall_ms, ctx());
            let needed = r.waits_ms * MS + burned + 200 * MS;
            oracle!("P31", may_block(&r) || needed >= wall, "wall-unjust", "nothing held it up for {} ms: {}", rules.wall_ms, ctx());
        }
        Err(TerminationReason::CpuTimeLimit) => {
            sim::probe("limit.cpu");
            oracle!("P31", r.burned >= rules.cpu_ms * MS * 8 / 10, "cpu-unjust", "the limit is {} ms and the script used {:.1} ms: {}", rules.cpu_ms, r.burned as f64 / MS as f64, ctx());
        }
        Err(TerminationReason::MemoryLimit) => {
            sim::probe("limit.memory");
            let much = r.prog.has(|o, _| matches!(o, Op::Eat | Op::Buffers(20.., true))) || r.top == Top::Eat;
            let some = r.prog.has(|o, _| matches!(o, Op::Buffers(..)));
            oracle!("P12", much || !some, "garbage-counted", "its ArrayBuffers take a few MB of 24, and V8 had been refused one before it collected its garbage: {}", ctx());
            oracle!("P31", much || some, "memory-unjust", "it allocates nothing: {}", ctx());
        }
        Err(_) => {
            oracle!("P31", false, "wrong-reason", "{}", ctx());
        }
    }
    ws_done(&r, now, burned);
    oracle!("P31", took <= 2 * wall + 300 * MS + burned, "too-long", "the limit is {} ms (twice, with waitUntil): {}", rules.wall_ms, ctx());
    if let Some(t) = r.ate_at {
        oracle!("P31", now <= t + 200 * MS + burned, "memory-late", "its memory ran out at {:.2} ms: {}", t as f64 / MS as f64, ctx());
    }
    // only while no thread that enforces the limit is kept waiting
    oracle!("P31", r.burned_alone <= (2 * rules.cpu_ms + 5) * MS, "cpu-over", "the limit is {} ms and the script used {:.1} ms: {}", rules.cpu_ms, r.burned as f64 / MS as f64, ctx());
}

/// Long after the last request: what the clients have, and what still runs.
pub fn afterwards(rules: &Rules) {
    let reqs = with(|w| w.reqs.clone());
    for r in reqs.values().filter(|r| !r.hostile()) {
        if r.task {
            task_has(r);
            continue;
        }
        client_has(r, rules);
        client_left(r, rules);
        copy_has(r, rules);
    }
}
/// All of a thread's requests have been over for a while, and its runtime still runs.
pub fn settled(ids: &[u32]) {
    let reqs = with(|w| w.reqs.clone());
    for r in ids.iter().map(|i| &reqs[i]).filter(|r| !r.hostile()) {
        let Some(end) = r.dropped.or(r.done.as_ref().map(|d| d.0)) else {
            continue;
        };
        for (tag, c) in &r.calls {
            oracle!("P32", !c.running, "op-runs-on", "request {} has been over for seconds ({:?}) and its call {tag} is still in progress", r.id, r.done);
            // an answer that comes when nobody waits for it any more is not looked at
            if c.answered.is_some_and(|t| t <= end) {
                oracle!("P32", !c.producing, "body-runs-on", "request {} has been over for seconds ({:?}) and the body of its call {tag} is still being sent", r.id, r.done);
            }
        }
        for (tag, s) in &r.socks {
            oracle!("P32", !s.running, "op-runs-on", "request {} has been over for seconds ({:?}) and its WebSocket {tag} is still being opened", r.id, r.done);
            oracle!("P38", !s.running, "op-runs-on", "request {} has been over for seconds ({:?}) and its WebSocket {tag} is still being opened", r.id, r.done);
            oracle!("P38", !s.open, "left-open", "request {} has been over for seconds ({:?}) and its WebSocket {tag} is still open", r.id, r.done);
        }
        oracle!("P33", !r.sending, "body-runs-on", "request {} has been over for seconds ({:?}) and its client is still sending its body", r.id, r.done);
    }
}
fn task_has(r: &Req) {
    let id = r.id;
    let Some((_, res)) = &r.done else { return };
    let ctx = || format!("task {id} ({}, style {}, {:?} {:?}) ended with {res:?}; it said {}", r.me, r.style, r.prog.pre, r.how, first_lines(&r.said));
    if r.start.is_some() {
        let known = if r.style == 3 { "undefined undefined".into() } else { format!("task-{id} {}", if r.from_schedule { 1 } else { attempt(id) }) };
        let time = if r.from_schedule { (SCHEDULE + id as u64).to_string() } else { "undefined".into() };
        let told = format!("task {known} {time}");
        oracle!("P34", r.said(&told), "wrong-event", "its handler should have been told \"{told}\": {}", ctx());
    }
    let same = |t: &openworkers_core::TaskResult| {
        let e = r.task_expected();
        t.success == e.success
            && t.data == e.data
            && match (&t.error, &e.error) {
                (Some(a), Some(b)) => a.contains(b.as_str()),
                (a, b) => a.is_none() == b.is_none(),
            }
    };
    match (&r.task_result, res) {
        (Some(t), Ok(())) => {
            sim::probe(if t.success { "task.succeeded" } else { "task.failed" });
            oracle!("P34", same(t), "wrong-result", "it was reported as {t:?} instead of {:?}: {}", r.task_expected(), ctx());
        }
        (None, Ok(())) => oracle!("P34", false, "no-result", "nothing was reported: {}", ctx()),
        // (it had its result by then)
        (Some(t), Err(_)) => oracle!("P34", same(t) && (r.said("resp") || fails(r) || r.style >= 5), "result-of-cut-task", "it was cut short and reported as {t:?}: {}", ctx()),
        (None, Err(_)) => oracle!("P34", r.unanswered, "caller-waits", "it was cut short and whoever waits for its result still waits: {}", ctx()),
    }
}
/// What it means for the source of a body, and for the request, that the client left.
fn client_left(r: &Req, rules: &Rules) {
    let id = r.id;
    let Some(left) = r.left else { return };
    let (Some(resp), Some((done, res))) = (r.said_at("resp"), &r.done) else {
        return;
    };
    // what else the request waited for
    let busy = r.prog.has(|o, _| matches!(o, Op::Hang | Op::Spin | Op::Eat)) || r.calls.iter().any(|(t, c)| matches!(c.answer, Answer::Hang) || matches!(c.answer, Answer::Stream(_, End::Open)) && !matches!(&r.prog.resp, Resp::Fwd(_, f) if f == t)) || r.socks.values().any(|s| matches!(s.peer, Peer::Hang));
    let from = left.max(resp);
    let burned = with(|w| w.reqs.values().map(|q| q.burned).sum::<u64>());
    let soon = from + 200 * MS + burned;
    let ctx = || format!("request {id} ({}, {:?} {:?}) ended at {:.2} ms with {res:?}, its client left at {:.2} ms; it said {}", r.me, r.prog, r.client, *done as f64 / MS as f64, left as f64 / MS as f64, first_lines(&r.said));
    // (a copy of the response keeps its source busy)
    if res.is_err() && *done < soon || matches!(r.prog.wrap, Wrap::Keep | Wrap::Give) {
        return;
    }
    if let Resp::Stream { chunks, end, .. } = &r.prog.resp {
        let all = chunks.is_empty() || r.said_at(&format!("put {}", chunks.len())).is_some_and(|t| t <= from + 20 * MS);
        let ends = all && *end != End::Open;
        let told = r.said.iter().find(|s| s.1.starts_with("told")).map(|s| s.0);
        if !ends {
            sim::probe("client.left_early");
            oracle!("P28", told.is_some_and(|t| t <= soon), "source-not-told", "the source of the body did not hear of it: {}", ctx());
        }
    }
    if let Resp::Fwd(_, tag) = &r.prog.resp {
        if let Some(c) = r.calls.get(tag).filter(|c| c.answered.is_some()) {
            sim::probe("client.left_forwarded");
            oracle!("P28", !c.producing && c.produced_until.is_none_or(|t| t <= soon), "upstream-not-told", "the upstream service whose body was forwarded did not hear of it: {}", ctx());
        }
    }
    let waits = r.waits_ms * MS;
    if !busy && rules.wall_ms * MS > 2 * (waits + 400 * MS) {
        oracle!("P28", *done <= soon + waits, "goes-on", "nobody is left to serve, and it went on: {}", ctx());
    }
}
fn client_has(r: &Req, _rules: &Rules) {
    if r.dropped.is_some() || r.left.is_some() || r.task {
        return;
    }
    let id = r.id;
    let Some((_, res)) = &r.done else { return };
    let Some(a) = &r.answer else {
        oracle!("P26", res.is_err(), "no-response", "request {id} ended with {res:?} and its client was given no response");
        return;
    };
    if fails(r) {
        let b = String::from_utf8_lossy(&a.body);
        let told = !r.prog.has(|o, wu| !wu && matches!(o, Op::Throw(t) if !matches!(t, Thrown::Error | Thrown::Text)));
        oracle!("P26", a.status == 500 && (!told || b.contains(&format!("boom {id}"))), "wrong-response", "the handler of request {id} threw; its client was given {} {b:?}", a.status);
        return;
    }
    let mut got = String::from_utf8_lossy(&a.body).into_owned();
    if let Resp::Text(_, _, 9 | 10) = r.prog.resp {
        let kind = a.headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-type")).map(|h| h.1.as_str());
        got = in_form(&got, kind).unwrap_or(got);
    }
    match &r.prog.resp {
        Resp::Echo(read) if *read != Read::Stream && *read != Read::Part && r.streamed == Some(End::Error) => {
            oracle!("P33", a.status == 500 && got.contains(&gone(id)), "false-end", "the body that the client of request {id} sent was cut after {} bytes; the script that read it answered {} {got:?}", r.body.len(), a.status);
            return;
        }
        Resp::Echo(Read::Part) => {
            // how a body is cut is nobody's business
            let cut = got.is_empty() && a.status == 500 && r.streamed == Some(End::Error);
            oracle!("P33", cut || r.body.starts_with(&got) && got.is_empty() == r.body.is_empty(), "wrong-body", "request {id} sent {:?}; what its script read first was {got:?}", r.body);
            if let Some(t) = r.sent_until.filter(|_| r.said("resp")) {
                let at = r.said_at(&format!("read {}", got.len())).unwrap_or(t);
                let burned = with(|w| w.reqs.values().map(|q| q.burned).sum::<u64>());
                oracle!("P33", t <= at + 50 * MS + burned, "sender-not-told", "request {id}: the script cancelled the request body at {:.2} ms, and the client went on sending until {:.2} ms", at as f64 / MS as f64, t as f64 / MS as f64);
            }
            if cut {
                return;
            }
        }
        Resp::Fwd(_, tag) => match r.calls.get(tag) {
            None => {
                oracle!("P26", false, "wrong-response", "request {id} answered without the call {tag} it forwards");
                return;
            }
            Some(c) => {
                if let Answer::Err | Answer::Odd = c.answer {
                    let e = if let Answer::Err = c.answer { up_err(id, tag) } else { "nexpected".into() };
                    oracle!("P26", a.status == 500 && got.contains(&e), "wrong-response", "request {id} forwards a failed call; its client was given {} {got:?}", a.status);
                    return;
                }
            }
        },
        _ => {}
    }
    let (status, body, ends) = source(r, Some(&got));
    oracle!("P26", a.status == status, "wrong-status", "request {id} answered {status}, its client was given {}", a.status);
    let want = match &r.prog.resp {
        Resp::Fwd(_, tag) => up_headers(id, tag),
        _ => own_headers(id),
    };
    let names: BTreeSet<&str> = want.iter().map(|h| h.0.as_str()).collect();
    let sort = |h: &[(String, String)]| {
        let mut v: Vec<(String, String)> = h.iter().map(|h| (h.0.to_lowercase(), h.1.clone())).filter(|h| names.contains(h.0.as_str())).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    };
    oracle!("P26", sort(&a.headers) == sort(&want), "wrong-headers", "request {id} ({:?}, {:?}): the client was given the headers {:?} instead of {want:?}", r.prog.resp, r.prog.wrap, a.headers);
    let base = if a.buffered { "P26" } else { "P27" };
    let own = if let Resp::Echo(_) = r.prog.resp { "P33" } else { base };
    for prop in [base, own] {
        oracle!(prop, body.starts_with(&got), "wrong-body", "request {id} ({:?}) sent {body:?}; its client was given {got:?}, {:?}", r.prog.resp, a.end);
        match &a.end {
            Some(Ok(())) => {
                oracle!(
                    prop,
                    ends == Ok(true) || ends == Ok(false) && false,
                    "false-end",
                    "the body of request {id} ({:?}, {res:?}) did not end well at its source ({ends:?}); its client was told that it is complete after {} bytes",
                    r.prog.resp,
                    got.len()
                );
                oracle!(prop, got.len() == body.len(), "short-body", "the body of request {id} ({:?}, {res:?}) has {} bytes; its client was told that it is complete after {}", r.prog.resp, body.len(), got.len());
            }
            Some(Err(e)) => {
                // an error is right when the source failed, or the request was cut short
                oracle!(prop, res.is_err() || ends.as_ref().is_err_and(|x| e.contains(x.as_str())), "false-error", "the body of request {id} ({:?}, {res:?}) was reported to its client as failed: {e}", r.prog.resp);
            }
            None => {
                oracle!(prop, false, "body-hangs", "request {id} ({:?}) is over ({res:?}) and its client still waits for the rest of its body, after {} of {} bytes", r.prog.resp, got.len(), body.len());
            }
        }
    }
}

/// Status and body of the response that a script builds, and how its body ends.
fn source(r: &Req, got: Option<&str>) -> (u16, String, Result<bool, String>) {
    let id = r.id;
    match &r.prog.resp {
        Resp::Text(n, s, _) => (*s, pad(id, 0, *n), Ok(true)),
        Resp::Echo(Read::Part) => (200, got.unwrap_or_default().to_string(), Ok(true)),
        Resp::Echo(_) => (200, r.body.clone(), if r.streamed == Some(End::Error) { Err(gone(id)) } else { Ok(true) }),
        Resp::Stream { chunks, end, .. } => {
            let b = chunks.iter().enumerate().map(|(i, c)| pad(id, i, c.0)).collect();
            let end = match end {
                End::Close => Ok(true),
                End::Error => Err(src_err(id)),
                End::Open => Ok(false),
            };
            (200, b, end)
        }
        Resp::Fwd(_, tag) => match r.calls.get(tag).map(|c| &c.answer) {
            Some(Answer::Empty) => (up_status(id, tag), String::new(), Ok(true)),
            Some(Answer::Bytes(n)) => (up_status(id, tag), up_pad(id, tag, 0, *n), Ok(true)),
            Some(Answer::Stream(ch, e)) => (up_status(id, tag), up_body(id, tag, ch), match e {
                End::Close => Ok(true),
                End::Error => Err(up_cut(id, tag)),
                End::Open => Ok(false),
            }),
            _ => (0, String::new(), Ok(false)),
        },
    }
}
/// A script that keeps a copy of its response can read all of it, whatever its client does.
fn copy_has(r: &Req, rules: &Rules) {
    if r.prog.wrap != Wrap::Keep || !r.said("resp") || r.dropped.is_some() {
        return;
    }
    let Some((done, res)) = &r.done else { return };
    let id = r.id;
    if let Resp::Echo(Read::Part) = r.prog.resp {
        return;
    }
    // waitUntil has a limit of its own
    let cut = r.said_at("resp").is_some_and(|t| *done >= t + rules.wall_ms * MS) || r.burned >= rules.cpu_ms * MS / 2;
    let (_, body, ends) = source(r, None);
    let all: Vec<&str> = r.said.iter().map(|s| s.1.as_str()).filter(|s| s.starts_with("copy")).collect();
    let want = match ends {
        Ok(true) => format!("copy {body}"),
        Err(_) => "copyfail".into(),
        Ok(false) => "nothing".into(),
    };
    let ok = match &all[..] {
        [] => res.is_err() || ends == Ok(false) || cut,
        [one] => *one == want,
        _ => false,
    };
    sim::probe("response.copied");
    oracle!("P27", ok, "wrong-copy", "request {id} ({:?}, {:?}) kept a copy of its response; reading it gave {all:?} instead of {want:?}, and it ended with {res:?}", r.prog.resp, r.client);
}
