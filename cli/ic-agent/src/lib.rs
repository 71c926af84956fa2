//! Stand-in for the ic-agent crate: the part of its interface that the command line tool uses, with every call handed to the
//! simulator over two pipes (descriptors named by NFT_SIM_REQ and NFT_SIM_RESP) and answered by it.
use candid::Principal;
use std::fmt;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::path::Path;
use std::sync::{Arc, Mutex};

pub mod export {
    pub use candid::Principal;
}

#[derive(Debug)]
pub enum AgentError {
    TimeoutWaitingForResponse(),
    CertifiedReject(String),
    UncertifiedReject(String),
    TransportError(String),
    MessageError(String),
}
impl fmt::Display for AgentError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            AgentError::TimeoutWaitingForResponse() => write!(f, "The request timed out."),
            AgentError::CertifiedReject(m) | AgentError::UncertifiedReject(m) => {
                write!(f, "The replica returned a rejection error: {}", m)
            }
            AgentError::TransportError(m) => write!(f, "An error happened during communication with the replica: {}", m),
            AgentError::MessageError(m) => write!(f, "{}", m),
        }
    }
}
impl std::error::Error for AgentError {}

pub trait Identity: Send + Sync {
    fn text(&self) -> String;
    fn sender(&self) -> Result<Principal, String>;
}

pub mod identity {
    use super::*;
    #[derive(Debug)]
    pub struct PemError(String);
    impl fmt::Display for PemError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for PemError {}
    macro_rules! identity {
        ($n:ident) => {
            #[derive(Debug, Clone)]
            pub struct $n(String);
            impl $n {
                pub fn from_pem_file<P: AsRef<Path>>(p: P) -> Result<Self, PemError> {
                    let t = std::fs::read_to_string(p).map_err(|e| PemError(e.to_string()))?;
                    Self::from_pem(t)
                }
                pub fn from_pem<B: AsRef<[u8]>>(b: B) -> Result<Self, PemError> {
                    let t = String::from_utf8_lossy(b.as_ref()).trim().to_string();
                    if t.starts_with("-----BEGIN SIMULATED KEY-----") { Ok($n(t)) } else { Err(PemError("not a key".into())) }
                }
            }
            impl Identity for $n {
                fn text(&self) -> String {
                    self.0.lines().nth(1).unwrap_or("").trim().to_string()
                }
                fn sender(&self) -> Result<Principal, String> {
                    Principal::from_text(self.text()).map_err(|e| e.to_string())
                }
            }
        };
    }
    identity!(Secp256k1Identity);
    identity!(BasicIdentity);
    identity!(Prime256v1Identity);
    #[derive(Debug, Clone)]
    pub struct AnonymousIdentity;
    impl Identity for AnonymousIdentity {
        fn text(&self) -> String { Principal::anonymous().to_text() }
        fn sender(&self) -> Result<Principal, String> { Ok(Principal::anonymous()) }
    }
    pub use super::Identity;
}

struct Wire { req: std::fs::File, resp: std::fs::File }
static WIRE: Mutex<Option<Wire>> = Mutex::new(None);
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push(char::from_digit((x >> 4) as u32, 16).unwrap()); s.push(char::from_digit((x & 15) as u32, 16).unwrap()); }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
// one request, one answer: "ok <hex>", "reject <hex text>", "transport <hex text>", "timeout"
fn exchange(line: String) -> Result<Vec<u8>, AgentError> {
    let mut g = WIRE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        let fd = |n: &str| std::env::var(n).expect(n).parse::<i32>().expect(n);
        *g = Some(unsafe { Wire { req: std::fs::File::from_raw_fd(fd("NFT_SIM_REQ")), resp: std::fs::File::from_raw_fd(fd("NFT_SIM_RESP")) } });
    }
    let w = g.as_mut().unwrap();
    w.req.write_all(line.as_bytes()).and_then(|_| w.req.write_all(b"\n")).expect("simulator gone");
    let mut out = Vec::new();
    let mut buf = vec![0u8; 65536];
    loop {
        let n = w.resp.read(&mut buf).expect("simulator gone");
        assert!(n > 0, "simulator gone");
        out.extend_from_slice(&buf[..n]);
        if out.last() == Some(&b'\n') { break; }
    }
    let s = String::from_utf8(out).unwrap();
    let s = s.trim_end();
    let (k, v) = s.split_once(' ').unwrap_or((s, ""));
    let text = || String::from_utf8_lossy(&unhex(v)).to_string();
    match k {
        "ok" => Ok(unhex(v)),
        "reject" => Err(AgentError::CertifiedReject(text())),
        "uncertified" => Err(AgentError::UncertifiedReject(text())),
        "crash" => std::process::abort(), // the process ends here, whatever it was about to do
        "timeout" => Err(AgentError::TimeoutWaitingForResponse()),
        _ => Err(AgentError::TransportError(text())),
    }
}

#[derive(Clone)]
pub struct Agent { id: Arc<dyn Identity>, url: String }
impl Agent {
    pub fn builder() -> AgentBuilder { AgentBuilder { id: Arc::new(identity::AnonymousIdentity), url: String::new() } }
    pub async fn fetch_root_key(&self) -> Result<(), AgentError> {
        exchange(format!("root {}", self.url)).map(|_| ())
    }
    pub fn get_principal(&self) -> Result<Principal, String> { self.id.sender() }
    pub fn update<S: Into<String>>(&self, canister: &Principal, method: S) -> UpdateBuilder<'_> {
        UpdateBuilder { agent: self, canister: *canister, method: method.into(), arg: vec![] }
    }
    pub fn query<S: Into<String>>(&self, canister: &Principal, method: S) -> QueryBuilder<'_> {
        QueryBuilder { agent: self, canister: *canister, method: method.into(), arg: vec![] }
    }
}
pub struct AgentBuilder { id: Arc<dyn Identity>, url: String }
impl AgentBuilder {
    pub fn with_identity<I: 'static + Identity>(mut self, id: I) -> Self { self.id = Arc::new(id); self }
    pub fn with_boxed_identity(mut self, id: Box<dyn Identity>) -> Self { self.id = Arc::from(id); self }
    pub fn with_arc_identity(mut self, id: Arc<dyn Identity>) -> Self { self.id = id; self }
    pub fn with_url<S: Into<String>>(mut self, url: S) -> Self { self.url = url.into(); self }
    pub fn build(self) -> Result<Agent, AgentError> { Ok(Agent { id: self.id, url: self.url }) }
}
pub enum CallResponse<T> { Response(T), Poll(u64) }
macro_rules! builder {
    ($n:ident, $k:literal) => {
        pub struct $n<'a> { agent: &'a Agent, canister: Principal, method: String, arg: Vec<u8> }
        impl<'a> $n<'a> {
            pub fn with_arg<A: Into<Vec<u8>>>(mut self, arg: A) -> Self { self.arg = arg.into(); self }
            pub fn with_effective_canister_id(self, _: Principal) -> Self { self }
            pub fn expire_after(self, _: std::time::Duration) -> Self { self }
            async fn go(self) -> Result<Vec<u8>, AgentError> {
                exchange(format!("{} {} {} {} {} {}", $k, self.agent.url, self.agent.id.text(), self.canister.to_text(), self.method, hex(&self.arg)))
            }
        }
    };
}
builder!(UpdateBuilder, "update");
builder!(QueryBuilder, "query");
impl<'a> UpdateBuilder<'a> {
    pub async fn call_and_wait(self) -> Result<Vec<u8>, AgentError> { self.go().await }
    pub async fn call(self) -> Result<CallResponse<Vec<u8>>, AgentError> { self.go().await.map(CallResponse::Response) }
}
impl<'a> QueryBuilder<'a> {
    pub async fn call(self) -> Result<Vec<u8>, AgentError> { self.go().await }
}
