//! Stand-in for the `openworkers-core` git dependency, which is not available
//! offline: the data types and traits the runtime uses, and nothing else.
use bytes::Bytes;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use sim_tokio::sync::{mpsc, oneshot};
use std::collections::HashMap;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::str::FromStr;
use std::sync::Arc;

// ------------------------------------------------------------------ http --
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
#[serde(rename_all = "UPPERCASE")]
pub enum HttpMethod {
    #[default]
    Get,
    Post,
    Put,
    Delete,
    Patch,
    Head,
    Options,
}
impl HttpMethod {
    pub fn as_str(&self) -> &'static str {
        match self {
            HttpMethod::Get => "GET",
            HttpMethod::Post => "POST",
            HttpMethod::Put => "PUT",
            HttpMethod::Delete => "DELETE",
            HttpMethod::Patch => "PATCH",
            HttpMethod::Head => "HEAD",
            HttpMethod::Options => "OPTIONS",
        }
    }
}
impl fmt::Display for HttpMethod {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.as_str())
    }
}
impl FromStr for HttpMethod {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(match s.to_ascii_uppercase().as_str() {
            "GET" => HttpMethod::Get,
            "POST" => HttpMethod::Post,
            "PUT" => HttpMethod::Put,
            "DELETE" => HttpMethod::Delete,
            "PATCH" => HttpMethod::Patch,
            "HEAD" => HttpMethod::Head,
            "OPTIONS" => HttpMethod::Options,
            o => return Err(format!("unknown method {o}")),
        })
    }
}

#[derive(Debug, Default)]
pub enum RequestBody {
    #[default]
    None,
    Bytes(Bytes),
    Stream(mpsc::Receiver<Result<Bytes, String>>),
}
#[derive(Debug, Default)]
pub enum ResponseBody {
    #[default]
    None,
    Bytes(Bytes),
    Stream(mpsc::Receiver<Result<Bytes, String>>),
}
#[derive(Debug)]
pub struct HttpRequest {
    pub method: HttpMethod,
    pub url: String,
    pub headers: HashMap<String, String>,
    pub body: RequestBody,
}
#[derive(Debug)]
pub struct HttpResponse {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: ResponseBody,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct HttpResponseMeta {
    pub status: u16,
    #[serde(rename = "statusText")]
    pub status_text: String,
    pub headers: Vec<(String, String)>,
}
pub type ResponseSender = oneshot::Sender<HttpResponse>;

// ------------------------------------------------------------------ logs --
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum LogLevel {
    Error,
    Warn,
    Info,
    Log,
    Debug,
    Trace,
}
impl fmt::Display for LogLevel {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
#[derive(Debug, Clone)]
pub struct LogEvent {
    pub level: LogLevel,
    pub message: String,
}

// -------------------------------------------------------------- bindings --
#[derive(Debug, Clone, PartialEq)]
pub enum StorageOp {
    Get { key: String },
    Fetch { key: String },
    Put { key: String, body: Vec<u8> },
    Head { key: String },
    List { prefix: Option<String>, limit: Option<u32> },
    Delete { key: String },
}
#[derive(Debug)]
pub enum StorageResult {
    Body(Option<Vec<u8>>),
    Response(HttpResponse),
    Head { size: u64, etag: Option<String> },
    List { keys: Vec<String>, truncated: bool },
    Error(String),
}
#[derive(Debug, Clone, PartialEq)]
pub enum KvOp {
    Get { key: String },
    Put { key: String, value: Value, expires_in: Option<u64> },
    Delete { key: String },
    List { prefix: Option<String>, limit: Option<u32> },
}
#[derive(Debug, Clone, PartialEq)]
pub enum KvResult {
    Value(Option<Value>),
    Ok,
    Keys(Vec<String>),
    Error(String),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SqlPrimitive {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    String(String),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SqlParam {
    Primitive(SqlPrimitive),
    Array(Vec<SqlPrimitive>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum DatabaseOp {
    Query { sql: String, params: Vec<SqlParam> },
}
#[derive(Debug, Clone, PartialEq)]
pub enum DatabaseResult {
    Rows(String),
    Error(String),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BindingType {
    Assets,
    Storage,
    Kv,
    Database,
    Worker,
}
#[derive(Debug, Clone)]
pub struct BindingInfo {
    pub name: String,
    pub binding_type: BindingType,
}

// ------------------------------------------------------------- websocket --
pub type WebSocketId = u64;
#[derive(Debug, Clone, PartialEq)]
pub enum WebSocketIncoming {
    Text(String),
    Binary(Vec<u8>),
    Closed { code: u16, reason: String },
    Error(String),
}
#[derive(Debug, Clone, PartialEq)]
pub enum WebSocketOutgoing {
    Text(String),
    Binary(Vec<u8>),
    Close { code: u16, reason: String },
}
#[derive(Debug)]
pub struct WebSocketConnection {
    pub send_tx: mpsc::UnboundedSender<WebSocketOutgoing>,
    pub recv_rx: mpsc::UnboundedReceiver<WebSocketIncoming>,
}

// ------------------------------------------------------------ operations --
#[derive(Debug)]
pub enum Operation {
    Fetch(HttpRequest),
    BindingFetch { binding: String, request: HttpRequest },
    BindingStorage { binding: String, op: StorageOp },
    BindingKv { binding: String, op: KvOp },
    BindingDatabase { binding: String, op: DatabaseOp },
    BindingWorker { binding: String, request: HttpRequest },
    WebSocketConnect { url: String, headers: HashMap<String, String> },
    Log { level: LogLevel, message: String },
}
#[derive(Debug)]
pub enum OperationResult {
    Http(Result<HttpResponse, String>),
    Storage(StorageResult),
    Kv(KvResult),
    Database(DatabaseResult),
    WebSocket(Result<WebSocketConnection, String>),
    Ack,
}
pub type OpFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
pub trait OperationsHandler: Send + Sync {
    fn handle(&self, _op: Operation) -> OpFuture<'_, OperationResult> {
        Box::pin(async { OperationResult::Ack })
    }
    fn handle_log(&self, _level: LogLevel, _message: String) {}
}
pub type OperationsHandle = Arc<dyn OperationsHandler>;
#[derive(Debug, Default, Clone, Copy)]
pub struct DefaultOps;
impl OperationsHandler for DefaultOps {}

// ----------------------------------------------------------------- tasks --
#[derive(Debug, Clone, PartialEq)]
pub struct RuntimeLimits {
    pub heap_initial_mb: usize,
    pub heap_max_mb: usize,
    pub max_cpu_time_ms: u64,
    pub max_wall_clock_time_ms: u64,
    pub stream_buffer_size: usize,
}
impl Default for RuntimeLimits {
    fn default() -> Self {
        RuntimeLimits { heap_initial_mb: 1, heap_max_mb: 128, max_cpu_time_ms: 50, max_wall_clock_time_ms: 30_000, stream_buffer_size: 16 }
    }
}
#[derive(Debug, Clone)]
pub enum WorkerCode {
    JavaScript(String),
    Snapshot(Vec<u8>),
    WebAssembly(Vec<u8>),
}
#[derive(Debug, Clone)]
pub struct Script {
    pub code: WorkerCode,
    pub env: Option<HashMap<String, String>>,
    pub bindings: Vec<BindingInfo>,
}
impl Script {
    pub fn new(code: impl Into<String>) -> Self {
        Script { code: WorkerCode::JavaScript(code.into()), env: None, bindings: Vec::new() }
    }
}
#[derive(Debug)]
pub struct FetchInit {
    pub req: HttpRequest,
    pub res_tx: ResponseSender,
}
impl FetchInit {
    pub fn new(req: HttpRequest, res_tx: ResponseSender) -> Self {
        FetchInit { req, res_tx }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum TaskSource {
    Schedule { time: u64 },
    Worker { worker_id: String },
    Invoke { origin: Option<String> },
}
#[derive(Debug, Clone, PartialEq)]
pub struct TaskResult {
    pub success: bool,
    pub data: Option<Value>,
    pub error: Option<String>,
}
impl TaskResult {
    pub fn success() -> Self {
        TaskResult { success: true, data: None, error: None }
    }
    pub fn success_with(data: Value) -> Self {
        TaskResult { success: true, data: Some(data), error: None }
    }
    pub fn err(e: impl Into<String>) -> Self {
        TaskResult { success: false, data: None, error: Some(e.into()) }
    }
}
#[derive(Debug)]
pub struct TaskInit {
    pub task_id: String,
    pub payload: Option<Value>,
    pub source: Option<TaskSource>,
    pub attempt: u32,
    pub res_tx: oneshot::Sender<TaskResult>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EventType {
    Fetch,
    Task,
}
#[derive(Debug)]
pub enum Event {
    Fetch(Option<FetchInit>),
    Task(Option<TaskInit>),
}
impl Event {
    pub fn fetch(req: HttpRequest) -> (Event, oneshot::Receiver<HttpResponse>) {
        let (tx, rx) = oneshot::channel();
        (Event::Fetch(Some(FetchInit::new(req, tx))), rx)
    }
    pub fn event_type(&self) -> EventType {
        match self {
            Event::Fetch(_) => EventType::Fetch,
            Event::Task(_) => EventType::Task,
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum TerminationReason {
    Success,
    CpuTimeLimit,
    WallClockTimeout,
    MemoryLimit,
    Exception(String),
    InitializationError(String),
    Terminated,
    MaxIterationsReached,
    Aborted,
    Other(String),
}
impl fmt::Display for TerminationReason {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

#[allow(async_fn_in_trait)]
pub trait Worker: Sized {
    async fn new(script: Script, limits: Option<RuntimeLimits>) -> Result<Self, TerminationReason>;
    async fn exec(&mut self, task: Event) -> Result<(), TerminationReason>;
    fn abort(&mut self);
}

impl ResponseBody {
    /// Everything the body still delivers; `None` if it fails or is empty.
    pub async fn collect(self) -> Option<Bytes> {
        match self {
            ResponseBody::None => None,
            ResponseBody::Bytes(b) => Some(b),
            ResponseBody::Stream(mut rx) => {
                let mut v = Vec::new();
                while let Some(c) = rx.recv().await {
                    v.extend_from_slice(&c.ok()?);
                }
                Some(v.into())
            }
        }
    }
}

impl Event {
    pub fn task(task_id: String, payload: Option<Value>, source: Option<TaskSource>, attempt: u32) -> (Event, oneshot::Receiver<TaskResult>) {
        let (res_tx, rx) = oneshot::channel();
        (Event::Task(Some(TaskInit { task_id, payload, source, attempt, res_tx })), rx)
    }
    pub fn from_schedule(task_id: String, time: u64) -> (Event, oneshot::Receiver<TaskResult>) {
        Event::task(task_id, None, Some(TaskSource::Schedule { time }), 1)
    }
}
impl Script {
    pub fn with_env(code: impl Into<String>, env: HashMap<String, String>) -> Self {
        Script { env: Some(env), ..Script::new(code) }
    }
}
