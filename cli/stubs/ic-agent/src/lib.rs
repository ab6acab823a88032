//! The network client: every call becomes a message to the environment, which answers it as it pleases.
use candid::Principal;
#[derive(Debug)]
pub struct AgentError;
impl std::fmt::Display for AgentError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("call failed") } }
impl std::error::Error for AgentError {}
#[derive(Default, Clone)]
pub struct Agent;
pub struct AgentBuilder;
impl AgentBuilder {
    pub fn with_identity<I>(self, _: I) -> Self { self }
    pub fn with_url<U>(self, _: U) -> Self { self }
    pub fn build(self) -> Result<Agent, AgentError> { Ok(Agent) }
}
pub struct Builder { id: Principal, method: String, arg: Vec<u8> }
impl Builder {
    pub fn with_arg<A: Into<Vec<u8>>>(mut self, a: A) -> Self { self.arg = a.into(); self }
    pub async fn call_and_wait(self) -> Result<Vec<u8>, AgentError> { self.call().await }
    #[allow(deprecated)]
    pub async fn call(self) -> Result<Vec<u8>, AgentError> { ic_cdk::api::call::call_raw(self.id, &self.method, self.arg, 0).await.map_err(|_| AgentError) }
}
impl Agent {
    pub fn builder() -> AgentBuilder { AgentBuilder }
    pub async fn fetch_root_key(&self) -> Result<(), AgentError> { Ok(()) }
    pub fn update<S: Into<String>>(&self, id: &Principal, method: S) -> Builder { Builder { id: *id, method: method.into(), arg: Vec::new() } }
    pub fn query<S: Into<String>>(&self, id: &Principal, method: S) -> Builder { self.update(id, method) }
}
pub mod identity {
    #[derive(Debug)]
    pub struct PemError;
    impl std::fmt::Display for PemError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("pem") } }
    impl std::error::Error for PemError {}
    pub struct Secp256k1Identity;
    impl Secp256k1Identity { pub fn from_pem_file<P>(_: P) -> Result<Self, PemError> { Ok(Secp256k1Identity) } }
}
