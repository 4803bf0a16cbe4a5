//! The surroundings of the runtime: owners with workers, clients, upstream
//! services, and the record of everything they and the scripts saw.
use super::rt::Rt;
use bytes::Bytes;
use openworkers_core::*;
use owsim::h::{MS, Obs};
use simstd::sim;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, OnceLock};

// ---------------------------------------------------------------- program --
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Fetch,
    Svc,
    Asset,
    Kv,
    KvPut,
    KvDel,
    KvList,
    St,
    StPut,
    StHead,
    StList,
    StDel,
    StFetch,
    Db,
}
pub const KINDS: [Kind; 14] = [Kind::Fetch, Kind::Kv, Kind::Svc, Kind::Asset, Kind::Db, Kind::St, Kind::KvPut, Kind::StPut, Kind::KvDel, Kind::KvList, Kind::StHead, Kind::StList, Kind::StDel, Kind::StFetch];
impl Kind {
    pub fn js(self) -> &'static str {
        match self {
            Kind::Fetch => "fetch",
            Kind::Svc => "svc",
            Kind::Asset => "asset",
            Kind::Kv => "kv",
            Kind::KvPut => "kvput",
            Kind::KvDel => "kvdel",
            Kind::KvList => "kvlist",
            Kind::St => "st",
            Kind::StPut => "stput",
            Kind::StHead => "sthead",
            Kind::StList => "stlist",
            Kind::StDel => "stdel",
            Kind::StFetch => "stfetch",
            Kind::Db => "db",
        }
    }
    pub fn http(self) -> bool {
        matches!(self, Kind::Fetch | Kind::Svc | Kind::Asset | Kind::StFetch)
    }
}
#[derive(Clone, Debug)]
pub enum Op {
    Sleep(u32),
    Call(Kind, String),
    Bg(Kind, String),
    Par(Vec<Vec<Op>>),
    Interval(u32, u32),
    LeakInterval(u32),
    LeakTimeout(u32),
    Clear(u32, u32),
    Burn(u32),
    Spin,
    Eat,
    Throw(Thrown),
    Hang,
    /// a WebSocket: tag, messages to send, with which gap, whether to close it then, how long to wait for its end
    Ws(String, u32, u32, bool, u32),
    Wu(u32, Vec<Op>),
    /// so many ArrayBuffers of 1 MB, kept or not
    Buffers(u32, bool),
    /// timers, the number of the first, and how long they take
    Timers(u32, Vec<Tm>, u32),
    Mark(u32),
    /// everything there is, called so often with anything
    Hostile(u32, u32),
    /// a call that cannot be made as it is written
    Odd(u32),
    /// so many timers of so many milliseconds, or host calls, at once
    Burst(u32, u32),
}
#[derive(Clone, Debug)]
pub struct Tm {
    pub ms: u32,
    pub form: u32,
    /// of an interval
    pub ticks: u32,
    pub clear: Option<u32>,
}
impl Tm {
    /// The delay that it means.
    pub fn delay(&self) -> u64 {
        (if matches!(self.form, 4..=7) { 0 } else { self.ms }) as u64
    }
}
#[derive(Clone, Debug)]
pub struct TmRec {
    pub tm: Tm,
    pub set: u64,
    pub fired: Vec<u64>,
    pub cleared: Option<u64>,
}
/// What a script throws.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Thrown {
    Error,
    Text,
    Undefined,
    Null,
    Object,
}
impl Thrown {
    fn js(self) -> &'static str {
        ["error", "text", "undefined", "null", "object"][self as usize]
    }
}
/// What is made of the response that was built.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrap {
    Plain,
    /// it is returned, and a clone of it read
    Keep,
    /// a clone of it is returned
    Give,
    /// its body is put in another response
    Again,
}
impl Wrap {
    fn js(self) -> &'static str {
        ["", "keep", "give", "again"][self as usize]
    }
}
/// How a piece of a body is handed over.
pub const FORMS: u32 = 8;
pub const TEXT_FORMS: u32 = 12;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Close,
    Error,
    Open,
}
#[derive(Clone, Debug)]
pub enum Resp {
    Text(usize, u16, u32),
    Stream {
        pull: bool,
        form: u32,
        chunks: Vec<(usize, u32)>,
        end: End,
    },
    Fwd(Kind, String),
    /// the request's own body, read in one of several ways
    Echo(Read),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Read {
    Text,
    /// passed on as it is
    Stream,
    Reader,
    Buffer,
    /// it and a clone of it, one after the other or both at once
    Twice(bool),
    /// only the first part of it
    Part,
}
#[derive(Clone, Debug)]
pub struct Program {
    pub pre: Vec<Op>,
    pub resp: Resp,
    pub wrap: Wrap,
}
use serde_json::{Value, json};
fn ops_json(ops: &[Op]) -> Value {
    Value::Array(ops.iter().map(op_json).collect())
}
fn op_json(o: &Op) -> Value {
    match o {
        Op::Sleep(ms) => json!(["sleep", ms]),
        Op::Call(k, t) => json!(["call", k.js(), t]),
        Op::Bg(k, t) => json!(["bg", k.js(), t]),
        Op::Par(v) => json!(["par", v.iter().map(|x| ops_json(x)).collect::<Vec<_>>()]),
        Op::Interval(ms, n) => json!(["interval", ms, n]),
        Op::LeakInterval(ms) => json!(["leakint", ms]),
        Op::LeakTimeout(ms) => json!(["leakto", ms]),
        Op::Clear(a, b) => json!(["clear", a, b]),
        Op::Burn(n) => json!(["burn", n]),
        Op::Spin => json!(["spin"]),
        Op::Eat => json!(["eat"]),
        Op::Throw(t) => json!(["throw", t.js()]),
        Op::Hang => json!(["hang"]),
        Op::Ws(t, n, gap, closes, wait) => json!(["ws", t, n, gap, closes, wait]),
        Op::Wu(n, v) => json!(["wu", n, ops_json(v)]),
        Op::Timers(k, v, w) => json!(["timers", k, v.iter().map(|t| json!([t.ms, t.form, t.ticks, t.clear])).collect::<Vec<_>>(), w]),
        Op::Buffers(n, keep) => json!(["buffers", n, keep]),
        Op::Hostile(seed, n) => json!(["hostile", seed, n]),
        Op::Odd(k) => json!(["odd", k]),
        Op::Mark(n) => json!(["mark", n]),
        Op::Burst(n, ms) => json!(["burst", n, ms]),
    }
}
impl Program {
    pub fn pre_json(&self) -> Value {
        ops_json(&self.pre)
    }
    pub fn json(&self) -> String {
        let resp = match &self.resp {
            Resp::Text(n, s, f) => json!(["text", n, s, f]),
            Resp::Stream { pull, form, chunks, end } => json!([
                if *pull { "pull" } else { "push" },
                chunks.iter().map(|c| json!([c.0, c.1])).collect::<Vec<_>>(),
                match end {
                    End::Close => "close",
                    End::Error => "error",
                    End::Open => "open",
                },
                form
            ]),
            Resp::Fwd(k, t) => json!(["fwd", k.js(), t]),
            Resp::Echo(Read::Text) => json!(["echo"]),
            Resp::Echo(Read::Stream) => json!(["echostream"]),
            Resp::Echo(Read::Reader) => json!(["echoread"]),
            Resp::Echo(Read::Buffer) => json!(["echobuf"]),
            Resp::Echo(Read::Twice(b)) => json!(["echotwice", b]),
            Resp::Echo(Read::Part) => json!(["echopart"]),
        };
        json!({"pre": ops_json(&self.pre), "resp": resp, "wrap": self.wrap.js()}).to_string()
    }
    pub fn visit(&self, f: &mut impl FnMut(&Op, bool)) {
        fn go(ops: &[Op], wu: bool, f: &mut impl FnMut(&Op, bool)) {
            for o in ops {
                f(o, wu);
                match o {
                    Op::Par(v) => v.iter().for_each(|x| go(x, wu, f)),
                    Op::Wu(_, v) => go(v, true, f),
                    _ => {}
                }
            }
        }
        go(&self.pre, false, f)
    }
    /// Whether some operation is of this sort (`wu`: inside waitUntil only).
    pub fn has(&self, mut p: impl FnMut(&Op, bool) -> bool) -> bool {
        let mut found = false;
        self.visit(&mut |o, wu| found |= p(o, wu));
        found
    }
}
pub fn pad(id: u32, i: usize, n: usize) -> String {
    let mut s = format!("{id}:{i}|").repeat(1 + n / 3);
    s.truncate(n);
    s
}

// -------------------------------------------------------------- upstreams --
#[derive(Clone, Debug)]
pub enum Answer {
    Err,
    /// something that is no answer to the question
    Odd,
    Bytes(usize),
    Empty,
    Stream(Vec<(usize, u32)>, End),
    Hang,
}
#[derive(Clone, Debug)]
pub struct CallRec {
    pub kind: Kind,
    pub asked: u32,
    pub answer: Answer,
    /// the handler future exists
    pub running: bool,
    /// the producer of a streamed body is at work
    pub producing: bool,
    pub answered: Option<u64>,
    pub produced_until: Option<u64>,
    pub results: Vec<String>,
}
/// How a peer's side of a WebSocket goes.
#[derive(Clone, Debug)]
pub enum Peer {
    Err,
    Odd,
    Hang,
    /// it opens, sends messages at these distances, and then ...
    Opens(Vec<u32>, PeerEnd),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PeerEnd {
    Stays,
    Leaves,
    Fails,
    Vanishes,
}
#[derive(Clone, Debug)]
pub struct Sock {
    pub peer: Peer,
    pub asked: u32,
    /// the handler future exists
    pub running: bool,
    pub answered: Option<u64>,
    /// as the peer sees it
    pub open: bool,
    pub sent: Vec<u64>,
    pub got: u32,
    pub close_got: u32,
    pub ended: Option<u64>,
    /// as the script sees it
    pub opened: Option<u64>,
    pub failed: bool,
    pub heard: u32,
    pub errors: u32,
    pub said: Vec<u64>,
    pub closing: Option<u64>,
    pub told: Option<u64>,
    pub end: Option<u64>,
}
pub fn ws_in(id: u32, tag: &str, k: u32) -> String {
    format!("{}{id}/{tag}<{k}\u{e9}", if k % 3 == 1 { 'b' } else { 't' })
}
/// What an upstream service that fails says: sometimes nothing.
pub fn up_err(id: u32, tag: &str) -> String {
    if (id + number(tag)) % 7 == 0 { String::new() } else { format!("up-err {id}/{tag}") }
}
pub fn up_cut(id: u32, tag: &str) -> String {
    if (id + number(tag)) % 5 == 0 { String::new() } else { format!("up-cut {id}/{tag}") }
}
/// ... a client whose body breaks off.
pub fn gone(id: u32) -> String {
    if id % 6 == 0 { String::new() } else { format!("gone {id}") }
}
/// ... a script whose body does: there is nothing to say of undefined.
pub fn src_err(id: u32) -> String {
    if id % 5 == 4 { String::new() } else { format!("src {id}") }
}
pub fn limit(tag: &str) -> Option<u32> {
    let n = number(tag);
    (n % 2 == 0).then_some(n * 60 + 5)
}
pub fn expires(id: u32) -> u64 {
    1 + id as u64 * 37 % 500
}
pub fn up_status(id: u32, tag: &str) -> u16 {
    let n = id as usize * 7 + tag.len() * 3 + tag.bytes().last().unwrap_or(0) as usize;
    [200, 201, 202, 203, 299, 300, 302, 400, 404, 500, 503, 599][n % 12]
}
/// The number of a call among its request's: it also says how the call is made.
pub fn number(tag: &str) -> u32 {
    tag[1..].parse().unwrap_or(0)
}
/// What is stored under a key, what a query gives, and so on.
pub fn kv_value(id: u32, tag: &str) -> Option<Value> {
    let v = format!("v{id}/{tag}");
    match (id + number(tag)) % 4 {
        0 => Some(Value::String(v)),
        1 => Some(json!({"a": v, "b": [1, 2.5, null, true], "c": {"d": id}})),
        2 => None,
        _ => Some(json!(id)),
    }
}
pub fn kv_keys(id: u32, tag: &str) -> Vec<String> {
    (0..number(tag) % 4).map(|i| format!("{id}/{tag}/{i}")).collect()
}
pub fn st_value(id: u32, tag: &str) -> Option<String> {
    match (id + number(tag)) % 4 {
        0 => None,
        1 => Some(String::new()),
        _ => Some(format!("v{id}/{tag}\u{e9}")),
    }
}
pub fn st_head(id: u32, tag: &str) -> (u64, Option<String>) {
    let n = number(tag);
    ((id as u64) << (n % 3 * 14), (n % 2 == 0).then(|| format!("e{id}/{tag}")))
}
pub fn db_rows(id: u32, tag: &str) -> Value {
    match number(tag) % 3 {
        0 => json!([]),
        1 => json!([{"v": format!("v{id}/{tag}")}]),
        _ => json!([{"n": id, "v": format!("v{id}/{tag}")}, {"n": null, "v": [1, "x"]}]),
    }
}
pub fn db_params(id: u32, tag: &str) -> Vec<SqlParam> {
    use SqlPrimitive::*;
    let one = SqlParam::Primitive;
    match number(tag) % 3 {
        0 => vec![one(Int(id as i64))],
        1 => vec![one(String(format!("s{id}"))), one(Bool(true)), one(Null), one(Float(id as f64 + 0.5))],
        _ => vec![SqlParam::Array(vec![Int(1), Int(id as i64)]), one(Int(-3))],
    }
}
fn same_params(a: &[SqlParam], b: &[SqlParam]) -> bool {
    fn num(p: &SqlPrimitive) -> SqlPrimitive {
        match p {
            SqlPrimitive::Int(i) => SqlPrimitive::Float(*i as f64),
            p => p.clone(),
        }
    }
    let norm = |v: &[SqlParam]| -> Vec<SqlParam> {
        v.iter()
            .map(|p| match p {
                SqlParam::Primitive(p) => SqlParam::Primitive(num(p)),
                SqlParam::Array(a) => SqlParam::Array(a.iter().map(num).collect()),
            })
            .collect()
    };
    norm(a) == norm(b)
}
/// What the script must be given for a call, if it is given anything.
pub fn expected(id: u32, tag: &str, c: &CallRec) -> Result<String, String> {
    let err = up_err(id, tag);
    if let Answer::Err = c.answer {
        return Err(err);
    }
    if let Answer::Odd = c.answer {
        return Err("nexpected".into());
    }
    if !c.kind.http() {
        let show = |v: Option<Value>| v.unwrap_or(Value::Null).to_string();
        let t = match c.kind {
            Kind::Kv => show(kv_value(id, tag)),
            Kind::KvList => json!(kv_keys(id, tag)).to_string(),
            Kind::St => st_value(id, tag).map_or("null".into(), |v| json!(v).to_string()),
            Kind::StHead => {
                let (size, etag) = st_head(id, tag);
                let e = etag.map_or(String::new(), |e| format!(",\"etag\":{}", json!(e)));
                format!("{{\"size\":{size}{e}}}")
            }
            Kind::StList => format!("{{\"keys\":{},\"truncated\":{}}}", json!(kv_keys(id, tag)), id % 2 == 0),
            Kind::Db => db_rows(id, tag).to_string(),
            _ => "undefined".into(),
        };
        return Ok(format!("{} {t}", c.kind.js()));
    }
    let s = up_status(id, tag);
    match &c.answer {
        Answer::Bytes(n) => Ok(format!("{s} {}", up_pad(id, tag, 0, *n))),
        Answer::Empty => Ok(format!("{s} ")),
        Answer::Stream(ch, End::Close) => Ok(format!("{s} {}", up_body(id, tag, ch))),
        Answer::Stream(_, End::Error) => Err(up_cut(id, tag)),
        _ => Err("nothing".into()),
    }
}
/// The value of a form with one entry.
pub fn in_form(body: &str, kind: Option<&str>) -> Option<String> {
    let b = kind?.strip_prefix("multipart/form-data; boundary=")?;
    let (head, rest) = body.strip_prefix(&format!("--{b}\r\n"))?.split_once("\r\n\r\n")?;
    let text = rest.strip_suffix(&format!("\r\n--{b}--\r\n"))?;
    head.contains("name=\"x\"").then(|| text.to_string())
}
/// How a call to an upstream service is made: method, and whether it has a body.
pub fn call_form(id: u32, tag: &str) -> (HttpMethod, bool) {
    match (id + number(tag)) % 13 {
        0 => (HttpMethod::Post, true),
        1 => (HttpMethod::Put, true),
        2 => (HttpMethod::Post, true),
        3 => (HttpMethod::Get, false),
        4 => (HttpMethod::Patch, true),
        5 | 8 | 9 => (HttpMethod::Put, true),
        11 => (HttpMethod::Patch, true),
        6 | 7 | 10 => (HttpMethod::Post, true),
        _ => (HttpMethod::Delete, true),
    }
}
pub fn up_headers(id: u32, tag: &str) -> Vec<(String, String)> {
    let h = |k: &str, v: String| (k.to_string(), v);
    vec![h("x-up", format!("{id}/{tag}")), h("set-cookie", format!("a={id}; Path=/")), h("set-cookie", format!("b={tag}, c"))].into_iter().chain((0..number(tag) % 4 * 2).map(|i| h("set-cookie", format!("c{i}={tag}")))).collect()
}
/// ... of a response that a script builds.
pub fn own_headers(id: u32) -> Vec<(String, String)> {
    let h = |k: &str, v: String| (k.to_string(), v);
    vec![h("x-id", id.to_string()), h("set-cookie", format!("s={id}")), h("set-cookie", format!("t={id}, u")), h("x-list", format!("{id}, {}", id + 1))]
}
pub fn up_pad(id: u32, tag: &str, i: usize, n: usize) -> String {
    let mut s = format!("{id}/{tag}.{i};").repeat(1 + n / 5);
    s.truncate(n);
    s
}
pub fn up_body(id: u32, tag: &str, chunks: &[(usize, u32)]) -> String {
    chunks.iter().enumerate().map(|(i, c)| up_pad(id, tag, i, c.0)).collect()
}

// ------------------------------------------------------------------ record --
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Client {
    /// reads everything, pausing this long between chunks
    Reads(u32),
    /// takes so many chunks, then nothing for so long
    Stalls(u32, u32),
    /// gone after this time, answered or not
    LeavesAfter(u32),
    /// gone after so many chunks
    LeavesAt(u32),
}
/// How a task reports its result.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Nothing,
    Return,
    Respond,
    Fail,
    /// a value that is not an object: returned, or responded with
    Value(bool),
    /// a response, and then something else returned
    Both(bool),
    /// a success that is not spelt true
    Truthy,
}
pub fn task_value(id: u32) -> Value {
    [json!(0), json!(""), json!(false), json!(id), json!("x"), json!([id, null])][id as usize % if id % 2 == 0 { 6 } else { 5 }].clone()
}
pub const SCHEDULE: u64 = 1_763_600_000_000;
pub fn attempt(id: u32) -> u32 {
    id * 7 % 40
}
#[derive(Clone, Debug)]
pub struct Start {
    pub me: String,
    pub env: String,
    pub served: u32,
    pub isolate: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Answered {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub buffered: bool,
    pub chunks: u32,
    pub end: Option<Result<(), String>>,
    pub end_at: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Top {
    Nothing,
    Burn,
    Spin,
    SpinLater,
    Eat,
    Throw,
    Syntax,
}
impl Top {
    pub fn code(self) -> &'static str {
        match self {
            Top::Nothing => "",
            Top::Burn => "console.log('top burn');\n",
            Top::Spin => "for (;;) console.log('top burn');\n",
            Top::SpinLater => "Promise.resolve().then(() => { for (;;) console.log('top burn'); });\n",
            Top::Eat => "{ const hold = []; for (let i = 0; ; i++) { hold.push(new Array(50000).fill(i)); console.log('top ate'); } }\n",
            Top::Throw => "throw new Error('top boom');\n",
            Top::Syntax => "let = ;\n",
        }
    }
}
#[derive(Clone, Debug)]
pub struct Req {
    pub id: u32,
    pub owner: usize,
    pub worker: usize,
    pub version: i32,
    pub env: i64,
    pub prog: Program,
    pub body: String,
    /// a streamed request body, and how it ends
    pub streamed: Option<End>,
    pub client: Client,
    pub thread: usize,
    pub me: String,
    pub style: u32,
    pub task: bool,
    pub how: How,
    pub from_schedule: bool,
    // history
    pub exec_at: Option<u64>,
    pub done: Option<(u64, Result<(), TerminationReason>)>,
    pub dropped: Option<u64>,
    pub start: Option<Start>,
    pub warm_calls: u32,
    pub said: Vec<(u64, String)>,
    pub calls: BTreeMap<String, CallRec>,
    pub socks: BTreeMap<String, Sock>,
    pub timers: BTreeMap<u32, TmRec>,
    pub burned: u64,
    /// while no other thread had anything to do
    pub burned_alone: u64,
    pub ate_at: Option<u64>,
    /// what the script does while it is loaded
    pub top: Top,
    pub waits_ms: u64,
    pub answer: Option<Answered>,
    pub unanswered: bool,
    pub left: Option<u64>,
    pub task_result: Option<TaskResult>,
    /// the client is sending the request body
    pub sending: bool,
    pub sent: usize,
    pub sent_until: Option<u64>,
}
impl Req {
    pub fn method(&self) -> HttpMethod {
        use HttpMethod::*;
        if self.body.is_empty() { [Get, Delete, Options, Post][self.id as usize % 4] } else { [Post, Put, Patch, Delete][self.id as usize % 4] }
    }
    pub fn url(&self) -> String {
        format!("http://w:8080/{}/a%20b?x={}&y=%C3%A9", self.id, self.id)
    }
    pub fn payload(&self) -> Value {
        let how = match self.how {
            How::Nothing => "nothing",
            How::Return => "return",
            How::Respond => "respond",
            How::Fail => "fail",
            How::Value(false) => "value",
            How::Value(true) => "respondvalue",
            How::Both(false) => "both",
            How::Both(true) => "bothfail",
            How::Truthy => "truthy",
        };
        json!({"id": self.id, "value": task_value(self.id), "pre": self.prog.pre_json(), "how": how})
    }
    /// What must be reported for a task that ends.
    pub fn task_expected(&self) -> TaskResult {
        let id = self.id;
        if self.style >= 5 {
            return TaskResult::err("does not implement");
        }
        let mut said = None;
        self.prog.visit(&mut |o, _| {
            if let Op::Throw(t) = o {
                // which of several is reported does not matter
                let s = if matches!(t, Thrown::Error | Thrown::Text) && said.is_none() { format!("boom {id}") } else { String::new() };
                said = Some(if said.is_some() { String::new() } else { s });
            }
        });
        if let Some(s) = said {
            return TaskResult::err(s);
        }
        if self.style >= 3 {
            return TaskResult::success();
        }
        match self.how {
            How::Nothing => TaskResult::success(),
            // (an array is an object)
            How::Value(true) if task_value(id).is_array() => TaskResult::success(),
            How::Value(_) => TaskResult::success_with(task_value(id)),
            How::Return | How::Respond | How::Both(false) | How::Truthy => TaskResult::success_with(json!({"n": id, "text": format!("done {id}")})),
            How::Fail | How::Both(true) => TaskResult::err(format!("no {id}")),
        }
    }
    /// Its script does whatever it can.
    pub fn hostile(&self) -> bool {
        self.prog.pre.iter().any(|o| matches!(o, Op::Hostile(..)))
    }
    pub fn hostile_seed(&self) -> u32 {
        self.prog.pre.iter().find_map(|o| if let Op::Hostile(seed, _) = o { Some(*seed) } else { None }).unwrap_or(0)
    }
    pub fn said(&self, what: &str) -> bool {
        self.said.iter().any(|s| s.1 == what)
    }
    pub fn said_at(&self, what: &str) -> Option<u64> {
        self.said.iter().find(|s| s.1 == what).map(|s| s.0)
    }
    pub fn over(&self) -> bool {
        self.done.is_some() || self.dropped.is_some()
    }
}
#[derive(Default)]
pub struct World {
    pub reqs: BTreeMap<u32, Req>,
    /// which context's operations are bound to which request now
    pub current: BTreeMap<usize, u32>,
    pub uid_of: BTreeMap<usize, usize>,
    pub next_uid: usize,
    /// contexts seen: operations handle -> (worker identity, env)
    pub contexts: BTreeMap<usize, (String, String)>,
    pub iso_owner: BTreeMap<usize, usize>,
    pub max_reuses: u32,
    pub concurrent: usize,
    pub per_owner: Option<usize>,
    pub answers: Odds,
    pub names: ([&'static str; 3], [&'static str; 3]),
    pub stats: Option<fn() -> Option<(usize, usize, usize)>>,
}
#[derive(Clone, Copy, Default)]
pub struct Odds {
    pub err: u32,
    pub hang: u32,
    pub stream: u32,
    pub slow_ms: u32,
    pub cut: u32,
    /// streamed bodies that never end
    pub open: u32,
}
static WORLD: OnceLock<Obs<World>> = OnceLock::new();
pub fn world() -> Obs<World> {
    WORLD.get_or_init(Obs::default).clone()
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    world().with(f)
}
pub fn req<R>(id: u32, f: impl FnOnce(&mut Req) -> R) -> R {
    with(|w| f(w.reqs.get_mut(&id).unwrap()))
}

// --------------------------------------------------------------------- ops --
pub struct Ops {
    pub uid: usize,
}
impl Ops {
    pub fn make(id: u32) -> OperationsHandle {
        let uid = with(|w| {
            w.next_uid += 1;
            let u = w.next_uid;
            w.current.insert(u, id);
            u
        });
        let h: OperationsHandle = Arc::new(Ops { uid });
        with(|w| w.uid_of.insert(Arc::as_ptr(&h) as *const () as usize, uid));
        h
    }
}
impl Drop for Ops {
    fn drop(&mut self) {
        let uid = self.uid;
        let me = self as *const Ops as *const () as usize;
        with(|w| {
            if w.uid_of.get(&me) == Some(&uid) {
                w.uid_of.remove(&me);
            }
        });
    }
}
pub fn rebind(h: &OperationsHandle, id: u32) {
    let p = Arc::as_ptr(h) as *const () as usize;
    let before = with(|w| {
        let uid = w.uid_of[&p];
        w.reqs.get_mut(&id).unwrap().warm_calls += 1;
        let before = w.current.insert(uid, id).unwrap();
        w.reqs[&before].clone()
    });
    if !before.hostile() {
        super::check::fit(id, &before);
    }
}
fn parse_path(s: &str) -> Option<(u32, String)> {
    let (a, b) = s.split_once('/')?;
    Some((a.parse().ok()?, b.to_string()))
}
/// Whose call it is, unless it is one that nobody could make on purpose.
fn id_of(path: &str) -> Option<u32> {
    parse_path(path).map(|p| p.0).filter(|id| with(|w| w.reqs.get(id).is_some_and(|r| !r.hostile())))
}
struct Running(u32, String);
impl Drop for Running {
    fn drop(&mut self) {
        with(|w| {
            if let Some(c) = w.reqs.get_mut(&self.0).and_then(|r| r.calls.get_mut(&self.1)) {
                c.running = false;
            }
        })
    }
}
struct Connecting(u32, String);
impl Drop for Connecting {
    fn drop(&mut self) {
        with(|w| {
            if let Some(s) = w.reqs.get_mut(&self.0).and_then(|r| r.socks.get_mut(&self.1)) {
                s.running = false;
            }
        })
    }
}
struct Producing(u32, String);
impl Drop for Producing {
    fn drop(&mut self) {
        with(|w| {
            if let Some(c) = w.reqs.get_mut(&self.0).and_then(|r| r.calls.get_mut(&self.1)) {
                c.producing = false;
                c.produced_until = Some(sim::now());
            }
        })
    }
}
impl OperationsHandler for Ops {
    fn handle_log(&self, _level: LogLevel, message: String) {
        super::check::heard(self.uid, &message);
    }
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        let named = |b: &str, n: &str| if b == n { String::new() } else { format!("a call to {b} instead of {n}") };
        let mut request = None;
        // the key may have been mangled: then nobody made the call
        let tagged = |k: &str| parse_path(k).filter(|(_, t)| t.len() > 1).unwrap_or((0, "t0".into()));
        let (kind, path, mut wrong) = match op {
            Operation::Fetch(r) => {
                let u = r.url.clone();
                request = Some(r);
                (Kind::Fetch, u, String::new())
            }
            Operation::BindingFetch { binding, request: r } => {
                let u = r.url.clone();
                request = Some(r);
                (Kind::Asset, u, named(&binding, "ASSETS"))
            }
            Operation::BindingWorker { binding, request: r } => {
                let u = r.url.clone();
                request = Some(r);
                (Kind::Svc, u, named(&binding, "SVC"))
            }
            Operation::BindingKv { binding, op } => {
                let wrong = named(&binding, "KV");
                match op {
                    KvOp::Get { key } if key.starts_with("prog/") => {
                        let p = key[5..].parse().map(|id| req(id, |r| r.payload().to_string())).unwrap_or_default();
                        return Box::pin(async move { OperationResult::Kv(KvResult::Value(Some(Value::String(p)))) });
                    }
                    KvOp::Get { key } => (Kind::Kv, key, wrong),
                    KvOp::Put { key, value, expires_in } => {
                        let (id, tag) = tagged(&key);
                        let text = number(&tag) % 2 == 0;
                        let want = if text { json!(format!("b{key}")) } else { json!({"a": [1, "x", null], "b": format!("b{key}")}) };
                        let exp = (!text).then_some(expires(id));
                        let wrong = if value == want && expires_in == exp { wrong } else { format!("put {value} for {expires_in:?}") };
                        (Kind::KvPut, key, wrong)
                    }
                    KvOp::Delete { key } => (Kind::KvDel, key, wrong),
                    KvOp::List { prefix, limit } => {
                        let key = prefix.unwrap_or_default();
                        let (_, tag) = tagged(&key);
                        let wrong = if limit == super::world::limit(&tag) { wrong } else { format!("limit {limit:?}") };
                        (Kind::KvList, key, wrong)
                    }
                }
            }
            Operation::BindingStorage { binding, op } => {
                let wrong = named(&binding, "ST");
                match op {
                    StorageOp::Get { key } => (Kind::St, key, wrong),
                    StorageOp::Put { key, body } => {
                        let wrong = if body == format!("b{key}").into_bytes() { wrong } else { format!("put {body:?}") };
                        (Kind::StPut, key, wrong)
                    }
                    StorageOp::Head { key } => (Kind::StHead, key, wrong),
                    StorageOp::Delete { key } => (Kind::StDel, key, wrong),
                    StorageOp::Fetch { key } => (Kind::StFetch, key.strip_prefix('/').unwrap_or("").to_string(), wrong),
                    StorageOp::List { prefix, limit } => {
                        let key = prefix.unwrap_or_default();
                        let (_, tag) = tagged(&key);
                        let wrong = if limit == super::world::limit(&tag) { wrong } else { format!("limit {limit:?}") };
                        (Kind::StList, key, wrong)
                    }
                }
            }
            Operation::BindingDatabase { binding, op: DatabaseOp::Query { sql, params } } => {
                let (id, tag) = tagged(&sql);
                let wrong = if same_params(&params, &db_params(id, &tag)) { named(&binding, "DB") } else { format!("query with {params:?}") };
                (Kind::Db, sql, wrong)
            }
            Operation::WebSocketConnect { url, headers } => return peer(url, headers),
            _ => return Box::pin(async { OperationResult::Ack }),
        };
        let path = path.strip_prefix("http://up/").unwrap_or(&path).to_string();
        if id_of(&path).is_none() {
            // (an odd call: what becomes of it is open)
            sim::probe("call.odd");
            return Box::pin(async { OperationResult::Ack });
        }
        let Some((id, tag)) = parse_path(&path).filter(|(_, t)| t.len() > 1) else {
            oracle!("P25", false, "call-altered", "a call of a script reached the operations handler as {path:?}");
            return Box::pin(async { OperationResult::Ack });
        };
        if let Some(r) = &request {
            let b = match &r.body {
                RequestBody::Bytes(b) => Some(String::from_utf8_lossy(b).into_owned()),
                RequestBody::None => None,
                RequestBody::Stream(_) => Some("a stream".into()),
            };
            let kind = r.headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-type")).map(|h| h.1.as_str());
            let b = b.map(|b| in_form(&b, kind).unwrap_or(b));
            let (method, has_body) = call_form(id, &tag);
            let want = has_body.then(|| format!("b{id}/{tag}"));
            if r.method != method || b.unwrap_or_default() != want.unwrap_or_default() || r.headers.get("x-tag") != Some(&tag) {
                wrong = format!("{:?} {:?} {:?}", r.method, r.body, r.headers);
            }
        }
        let odds = with(|w| w.answers);
        let latency = if sim::draw(3) == 0 { 0 } else { sim::draw(odds.slow_ms.max(1)) };
        let answer = if odds.hang > 0 && sim::draw(odds.hang) == 0 {
            Answer::Hang
        } else if odds.err > 0 && sim::draw(odds.err) == 0 {
            if sim::draw(5) == 0 { Answer::Odd } else { Answer::Err }
        } else if kind.http() && odds.stream > 0 && sim::draw(odds.stream) == 0 {
            let n = if sim::draw(6) == 0 { sim::draw(45) } else { sim::draw(5) };
            let chunks = (0..n).map(|_| (1 + sim::draw(40) as usize, if sim::draw(2) == 0 { 0 } else { sim::draw(odds.slow_ms.max(1)) })).collect();
            let end = if odds.open > 0 && sim::draw(odds.open) == 0 {
                End::Open
            } else if odds.cut > 0 && sim::draw(odds.cut) == 0 {
                End::Error
            } else {
                End::Close
            };
            Answer::Stream(chunks, end)
        } else if kind.http() && sim::draw(8) == 0 {
            Answer::Empty
        } else {
            Answer::Bytes(sim::draw(60) as usize)
        };
        let fresh = with(|w| {
            let Some(r) = w.reqs.get_mut(&id) else {
                return false;
            };
            if let Answer::Stream(c, _) = &answer {
                r.waits_ms += c.iter().map(|c| c.1 as u64).sum::<u64>();
            }
            r.waits_ms += latency as u64;
            let e = r.calls.entry(tag.clone()).or_insert(CallRec { kind, asked: 0, answer: answer.clone(), running: true, producing: false, answered: None, produced_until: None, results: vec![] });
            e.asked += 1;
            e.asked == 1 && e.kind == kind
        });
        slog!("upstream: {id}/{tag} {kind:?} answers {answer:?} after {latency} ms");
        // (what was asked for just before the end may start just after it)
        let (end, burned) = with(|w| (w.reqs.get(&id).and_then(|r| r.dropped.or(r.done.as_ref().map(|d| d.0))), w.reqs.values().map(|q| q.burned).sum::<u64>()));
        oracle!("P32", end.is_none_or(|t| sim::now() <= t + 100 * MS + burned), "runs-on", "request {id} made the call {tag} although it had ended at {:.2} ms", end.unwrap_or(0) as f64 / MS as f64);
        oracle!("P25", wrong.is_empty(), "call-altered", "the call {id}/{tag} of a script reached the operations handler as {wrong}");
        oracle!("P25", fresh, "call-repeated", "the call {id}/{tag} of a script reached the operations handler twice, or nobody made it");
        // the call may be abandoned without having been polled
        let r = Running(id, tag.clone());
        Box::pin(async move {
            let _r = r;
            if let Answer::Hang = answer {
                sim::probe("fault.upstream_hangs");
                std::future::pending::<()>().await;
            }
            if latency > 0 {
                tokio::time::sleep(std::time::Duration::from_millis(latency as u64)).await;
            }
            with(|w| {
                if let Some(c) = w.reqs.get_mut(&id).and_then(|r| r.calls.get_mut(&tag)) {
                    c.answered = Some(sim::now());
                }
            });
            let err = up_err(id, &tag);
            if let Answer::Err = answer {
                sim::probe("fault.upstream_error");
                return match kind {
                    Kind::Kv | Kind::KvPut | Kind::KvDel | Kind::KvList => OperationResult::Kv(KvResult::Error(err)),
                    Kind::St | Kind::StPut | Kind::StHead | Kind::StList | Kind::StDel | Kind::StFetch => OperationResult::Storage(StorageResult::Error(err)),
                    Kind::Db => OperationResult::Database(DatabaseResult::Error(err)),
                    _ => OperationResult::Http(Err(err)),
                };
            }
            if let Answer::Odd = answer {
                return OperationResult::Ack;
            }
            match kind {
                Kind::Kv => return OperationResult::Kv(KvResult::Value(kv_value(id, &tag))),
                Kind::KvPut | Kind::KvDel => return OperationResult::Kv(KvResult::Ok),
                Kind::KvList => return OperationResult::Kv(KvResult::Keys(kv_keys(id, &tag))),
                Kind::St => return OperationResult::Storage(StorageResult::Body(st_value(id, &tag).map(String::into_bytes))),
                Kind::StPut | Kind::StDel => return OperationResult::Storage(StorageResult::Body(None)),
                Kind::StHead => {
                    let (size, etag) = st_head(id, &tag);
                    return OperationResult::Storage(StorageResult::Head { size, etag });
                }
                Kind::StList => return OperationResult::Storage(StorageResult::List { keys: kv_keys(id, &tag), truncated: id % 2 == 0 }),
                Kind::Db => return OperationResult::Database(DatabaseResult::Rows(db_rows(id, &tag).to_string())),
                _ => {}
            }
            let body = match answer {
                Answer::Bytes(n) => ResponseBody::Bytes(Bytes::from(up_pad(id, &tag, 0, n))),
                Answer::Stream(chunks, end) => {
                    let (tx, rx) = tokio::sync::mpsc::channel(1 + sim::draw(2) as usize);
                    let tag = tag.clone();
                    with(|w| w.reqs.get_mut(&id).unwrap().calls.get_mut(&tag).unwrap().producing = true);
                    tokio::spawn(async move {
                        let _p = Producing(id, tag.clone());
                        let send = async {
                            for (i, (n, d)) in chunks.iter().enumerate() {
                                if *d > 0 {
                                    tokio::time::sleep(std::time::Duration::from_millis(*d as u64)).await;
                                }
                                if tx.send(Ok(Bytes::from(up_pad(id, &tag, i, *n)))).await.is_err() {
                                    return;
                                }
                            }
                            match end {
                                End::Close => {}
                                End::Error => {
                                    sim::probe("fault.upstream_body_cut");
                                    let _ = tx.send(Err(up_cut(id, &tag))).await;
                                }
                                End::Open => {
                                    sim::probe("fault.upstream_body_stalls");
                                    std::future::pending::<()>().await
                                }
                            }
                        };
                        tokio::select! { _ = send => {} _ = tx.closed() => {} }
                    });
                    ResponseBody::Stream(rx)
                }
                _ => ResponseBody::None,
            };
            let response = HttpResponse { status: up_status(id, &tag), headers: up_headers(id, &tag), body };
            if let Kind::StFetch = kind { OperationResult::Storage(StorageResult::Response(response)) } else { OperationResult::Http(Ok(response)) }
        })
    }
}
/// The other end of a WebSocket.
fn peer<'a>(url: String, headers: std::collections::HashMap<String, String>) -> OpFuture<'a, OperationResult> {
    let path = url.strip_prefix("ws://up/").or(url.strip_prefix("http://up/")).unwrap_or(&url);
    if id_of(path).is_none() {
        sim::probe("call.odd");
        return Box::pin(async { OperationResult::Ack });
    }
    let Some((id, tag)) = parse_path(path).filter(|(_, t)| t.len() > 1) else {
        oracle!("P38", false, "connect-altered", "a script's WebSocket reached the operations handler as {url:?}");
        return Box::pin(async { OperationResult::Ack });
    };
    let own = number(&tag) % 4 % 3 == 0;
    let ok = if own { url.starts_with("ws:") && headers.get("Sec-WebSocket-Protocol") == Some(&format!("p{id}, q")) } else { url.starts_with("http:") && headers.get("x-tag") == Some(&tag) };
    oracle!("P38", ok, "connect-altered", "the WebSocket {id}/{tag} of a script reached the operations handler as {url:?} {headers:?}");
    let odds = with(|w| w.answers);
    let latency = if sim::draw(3) == 0 { 0 } else { sim::draw(odds.slow_ms.max(1)) };
    let plan = if odds.hang > 0 && sim::draw(odds.hang) == 0 {
        Peer::Hang
    } else if odds.err > 0 && sim::draw(odds.err) == 0 {
        if sim::draw(5) == 0 { Peer::Odd } else { Peer::Err }
    } else {
        let n = sim::draw(6);
        Peer::Opens((0..n).map(|_| if sim::draw(2) == 0 { 0 } else { sim::draw(15) }).collect(), [PeerEnd::Stays, PeerEnd::Leaves, PeerEnd::Fails, PeerEnd::Vanishes][sim::draw(4) as usize])
    };
    slog!("peer: {id}/{tag} {plan:?} after {latency} ms");
    let asked = with(|w| {
        let Some(r) = w.reqs.get_mut(&id) else { return 0 };
        r.waits_ms += latency as u64;
        let s = r.socks.entry(tag.clone()).or_insert(Sock { peer: plan.clone(), asked: 0, running: true, answered: None, open: false, sent: vec![], got: 0, close_got: 0, ended: None, opened: None, failed: false, heard: 0, errors: 0, said: vec![], closing: None, told: None, end: None });
        s.asked += 1;
        s.asked
    });
    let connecting = Connecting(id, tag.clone());
    oracle!("P38", asked == 1, "connect-repeated", "the WebSocket {id}/{tag} of a script reached the operations handler {asked} times");
    fn sock<R>(id: u32, tag: &str, f: impl FnOnce(&mut Sock) -> R) -> R {
        req(id, |r| f(r.socks.get_mut(tag).unwrap()))
    }
    Box::pin(async move {
        let _connecting = connecting;
        if latency > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(latency as u64)).await;
        }
        if let Peer::Hang = plan {
            std::future::pending::<()>().await;
        }
        sock(id, &tag, |s| s.answered = Some(sim::now()));
        let (gaps, end) = match plan {
            Peer::Opens(g, e) => (g, e),
            Peer::Odd => return OperationResult::Ack,
            _ => {
                sim::probe("fault.upstream_error");
                return OperationResult::WebSocket(Err(up_err(id, &tag)));
            }
        };
        let (send_tx, mut send_rx) = tokio::sync::mpsc::unbounded_channel();
        let (recv_tx, recv_rx) = tokio::sync::mpsc::unbounded_channel();
        sock(id, &tag, |s| s.open = true);
        let t = tag.clone();
        tokio::spawn(async move {
            while let Some(m) = send_rx.recv().await {
                slog!("peer {id}/{t} is sent {m:?}");
                let (n, closed, closing) = sock(id, &t, |s| (s.got, s.close_got, s.closing.is_some()));
                oracle!("P38", closed == 0, "after-close", "WebSocket {id}/{t}: the peer was sent {m:?} after the close");
                let text = format!("{id}/{t}>{n}");
                if let WebSocketOutgoing::Close { code, reason } = m {
                    let abandoned = number(&t) % 4 == 3;
                    let ok = if abandoned { code == 1000 && reason.is_empty() } else { closing && code == 4000 + id as u16 && reason == format!("bye {id}/{t}") };
                    oracle!("P38", ok, "close-altered", "WebSocket {id}/{t}: the peer was sent the close {code} {reason:?}");
                    let said = sock(id, &t, |s| {
                        s.close_got += 1;
                        s.said.len() as u32
                    });
                    oracle!("P38", n == said, "out-lost", "WebSocket {id}/{t}: the peer was sent {n} of {said} messages before the close");
                    continue;
                }
                let want = if n % 4 == 0 { WebSocketOutgoing::Text(text) } else { WebSocketOutgoing::Binary(text.into_bytes()) };
                oracle!("P38", m == want, "out-altered", "WebSocket {id}/{t}: message {n} reached the peer as {m:?} instead of {want:?}");
                sock(id, &t, |s| s.got += 1);
            }
            sock(id, &t, |s| s.open = false);
        });
        tokio::spawn(async move {
            for (k, gap) in gaps.into_iter().enumerate() {
                if gap > 0 {
                    tokio::time::sleep(std::time::Duration::from_millis(gap as u64)).await;
                }
                let text = ws_in(id, &tag, k as u32);
                let m = if text.starts_with('b') { WebSocketIncoming::Binary(text.into_bytes().split_off(1)) } else { WebSocketIncoming::Text(text[1..].to_string()) };
                if recv_tx.send(m).is_err() {
                    return;
                }
                sock(id, &tag, |s| s.sent.push(sim::now()));
            }
            let closed = |code, reason: &str| WebSocketIncoming::Closed { code, reason: reason.into() };
            let over = match end {
                PeerEnd::Stays => {
                    recv_tx.closed().await;
                    return;
                }
                PeerEnd::Leaves => recv_tx.send(closed(1001, "left")),
                PeerEnd::Fails => recv_tx.send(WebSocketIncoming::Error("broken".into())).and_then(|_| recv_tx.send(closed(1006, "broken"))),
                PeerEnd::Vanishes => Ok(()),
            };
            if over.is_ok() {
                sim::probe("fault.peer_left");
                sock(id, &tag, |s| s.ended = Some(sim::now()));
            }
        });
        OperationResult::WebSocket(Ok(WebSocketConnection { send_tx, recv_rx }))
    })
}
pub fn first_lines(v: &[(u64, String)]) -> String {
    v.iter().map(|(t, s)| format!("{:.3}ms {s}", *t as f64 / MS as f64)).collect::<Vec<_>>().join("; ")
}
#[allow(unused)]
fn _keep(_: Rt, _: BTreeSet<u8>, _: &Mutex<u8>) {}
