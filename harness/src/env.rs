//! a runtime whose every effect belongs to the harness
#![allow(dead_code)]
use anyhow::Result;
use async_graphql_value::ConstValue;
use hyper::body::Bytes;
use std::borrow::Cow;
use std::num::NonZeroU64;
use std::sync::{Arc, Mutex};
use tailcall::core::app_context::AppContext;
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::{Config, ConfigModule};
use tailcall::core::http::Response;
use tailcall::core::ir::model::IoId;
use tailcall::core::rest::{Checked, EndpointSet};
use tailcall::core::runtime::TargetRuntime;
use tailcall::core::{cache, Cache, EnvIO, FileIO, HttpIO};

type Answer = Box<dyn Fn(&reqwest::Request, usize) -> Result<Response<Bytes>> + Send + Sync>;
pub struct Http {
    pub log: Mutex<Vec<reqwest::Request>>,
    pub answer: Answer,
}
impl Http {
    pub fn new(f: impl Fn(&reqwest::Request, usize) -> Result<Response<Bytes>> + Send + Sync + 'static) -> Arc<Http> {
        Arc::new(Http { log: Mutex::new(vec![]), answer: Box::new(f) })
    }
    pub fn none() -> Arc<Http> {
        Http::new(|_, _| Err(anyhow::anyhow!("no upstream")))
    }
    pub fn sent(&self) -> usize {
        self.log.lock().unwrap().len()
    }
}
#[async_trait::async_trait]
impl HttpIO for Http {
    async fn execute(&self, request: reqwest::Request) -> Result<Response<Bytes>> {
        let n = self.sent();
        let r = (self.answer)(&request, n);
        self.log.lock().unwrap().push(request);
        r
    }
}
pub struct Env(pub Vec<(String, String)>);
impl EnvIO for Env {
    fn get(&self, key: &str) -> Option<Cow<'_, str>> {
        self.0.iter().find(|x| x.0 == key).map(|x| Cow::Borrowed(x.1.as_str()))
    }
}
struct Files;
#[async_trait::async_trait]
impl FileIO for Files {
    async fn write<'a>(&'a self, _: &'a str, _: &'a [u8]) -> Result<()> {
        Err(anyhow::anyhow!("no files"))
    }
    async fn read<'a>(&'a self, _: &'a str) -> Result<String> {
        Err(anyhow::anyhow!("no files"))
    }
}
struct NoCache;
#[async_trait::async_trait]
impl Cache for NoCache {
    type Key = IoId;
    type Value = ConstValue;
    async fn set<'a>(&'a self, _: IoId, _: ConstValue, _: NonZeroU64) -> Result<(), cache::Error> {
        Ok(())
    }
    async fn get<'a>(&'a self, _: &'a IoId) -> Result<Option<ConstValue>, cache::Error> {
        Ok(None)
    }
    fn hit_rate(&self) -> Option<f64> {
        None
    }
}
pub fn runtime(http: Arc<Http>, vars: Vec<(String, String)>) -> TargetRuntime {
    TargetRuntime {
        http2_only: http.clone(),
        http,
        env: Arc::new(Env(vars)),
        file: Arc::new(Files),
        cache: Arc::new(NoCache),
        extensions: Arc::new(vec![]),
        cmd_worker: None,
        worker: None,
    }
}
pub fn blueprint(sdl: &str) -> Blueprint {
    use tailcall_valid::Validator;
    let c = Config::from_sdl(sdl).to_result().unwrap();
    Blueprint::try_from(&ConfigModule::from(c)).unwrap()
}
pub fn app(b: Blueprint, http: Arc<Http>) -> Arc<AppContext> {
    Arc::new(AppContext::new(b, runtime(http, vec![]), EndpointSet::<Checked>::default()))
}

/// what the server answers
pub struct Reply {
    pub status: u16,
    pub headers: http::HeaderMap,
    pub body: Vec<u8>,
}
impl Reply {
    pub fn all(&self, name: &str) -> Vec<&[u8]> {
        self.headers.get_all(name).iter().map(|x| x.as_bytes()).collect()
    }
}
pub fn serve(app: &Arc<AppContext>, req: http::Request<hyper::Body>) -> Result<Reply> {
    use tailcall::core::async_graphql_hyper::GraphQLRequest;
    use tailcall::core::http::handle_request;
    reply(crate::rt::block_on(handle_request::<GraphQLRequest>(req, app.clone()))?)
}
/// several GraphQL requests in one
pub fn batch(app: &Arc<AppContext>, qs: &[&str]) -> Result<Reply> {
    use tailcall::core::async_graphql_hyper::GraphQLBatchRequest;
    use tailcall::core::http::handle_request;
    let qs: Vec<String> = qs.iter().map(|q| format!("{{\"query\":{q:?}}}")).collect();
    let req = request("POST", "http://localhost/graphql", &[], &format!("[{}]", qs.join(",")));
    reply(crate::rt::block_on(handle_request::<GraphQLBatchRequest>(req, app.clone()))?)
}
fn reply(resp: http::Response<hyper::Body>) -> Result<Reply> {
    let (p, b) = resp.into_parts();
    let body = crate::rt::block_on(hyper::body::to_bytes(b))?.to_vec();
    Ok(Reply { status: p.status.as_u16(), headers: p.headers, body })
}
pub fn request(method: &str, uri: &str, headers: &[(&str, &str)], body: &str) -> http::Request<hyper::Body> {
    let mut b = http::Request::builder().method(method).uri(uri);
    for (k, v) in headers {
        b = b.header(*k, *v);
    }
    b.body(hyper::Body::from(body.to_string())).unwrap()
}
/// a GraphQL request; `more`: further members of its JSON body
pub fn query(app: &Arc<AppContext>, q: &str, headers: &[(&str, &str)], more: &str) -> Result<Reply> {
    let body = format!("{{\"query\":{:?}{more}}}", q);
    serve(app, request("POST", "http://localhost/graphql", headers, &body))
}
