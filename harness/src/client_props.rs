//! Properties of the client of the cloud service, run against a server on the loopback network.
//!
//! `World` is the state of the service.  One copy answers the actual requests, after they have gone
//! through HTTP, and another one tells what had to be asked for and what comes out of it.

use crate::engine::*;
use crate::std_props::quote;
use crate::std_sut::*;
use endbasic_client::{CloudService, Service};
use endbasic_std::Machine;
use endbasic_std::console::{CharsXY, Key};
use endbasic_std::storage::{FileAcls, Storage};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, BufRead, BufReader, ErrorKind, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

const BASE_URL: &str = "https://repl.test/";

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Signup { username: String, password: String, email: String, promo: bool },
    Login(String, String),
    Logout(String),
    List(String),
    Get(String, String),
    GetAcls(String, String),
    Put(String, String, Vec<u8>),
    PatchAcls(String, String, Vec<String>, Vec<String>),
    Delete(String, String),
    /// Something that the server does not understand.
    Bad(String),
}

#[derive(Clone, Debug, PartialEq)]
struct Request {
    op: Op,
    token: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Body {
    Nothing,
    Created,
    Login { token: String, motd: Vec<String> },
    Files { files: Vec<(String, u64, u64)>, quota: Option<(u64, u64)>, free: Option<(u64, u64)> },
    Bytes(Vec<u8>),
    Readers(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    /// Fails with a well-formed error.
    Json(u16, String),
    /// Fails with something that is not the representation of an error.
    Text(u16, String),
    /// Succeeds with something that cannot be understood, if anything is expected.
    Garbage,
    /// Does the work but the connection goes away before answering.
    Drop,
}

#[derive(Clone, Debug, PartialEq)]
struct File {
    content: Vec<u8>,
    readers: BTreeSet<String>,
    mtime: u64,
}

#[derive(Clone, Debug, PartialEq)]
struct User {
    password: String,
    motd: Vec<String>,
    files: BTreeMap<String, File>,
    quota: Option<(u64, u64)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
struct World {
    users: BTreeMap<String, User>,
    tokens: BTreeMap<String, String>,
    tokens_issued: u64,
    clock: u64,
    /// What to do to the next request.
    fault: Option<Fault>,
}

type Answer = Result<Body, Failure>;

#[derive(Clone, Debug, PartialEq)]
enum Failure {
    Status(u16, String),
    Raw(u16, String),
    Garbage,
    Drop,
}

fn status<T>(code: u16, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure::Status(code, msg.into()))
}

impl World {
    fn owned(&mut self, who: &Option<String>, owner: &str) -> Result<&mut User, Failure> {
        match who {
            None => status(401, "Authentication required"),
            Some(w) if w != owner => status(403, format!("Not {}'s files", owner)),
            Some(_) => match self.users.get_mut(owner) {
                Some(u) => Ok(u),
                None => status(404, "No such user"),
            },
        }
    }

    fn handle(&mut self, req: &Request) -> Answer {
        match self.fault.take() {
            Some(Fault::Json(code, m)) => return Err(Failure::Status(code, m)),
            Some(Fault::Text(code, m)) => return Err(Failure::Raw(code, m)),
            // Clients do not expect content when asking for ACLs.
            Some(Fault::Garbage) if matches!(req.op, Op::GetAcls(..)) => return Ok(Body::Readers(vec![])),
            Some(Fault::Garbage) => return Err(Failure::Garbage),
            Some(Fault::Drop) => return Err(Failure::Drop),
            None => (),
        }

        let who = match &req.token {
            None => None,
            Some(t) => match self.tokens.get(t) {
                Some(u) => Some(u.clone()),
                None => return status(401, format!("Bad token {}", t)),
            },
        };
        match &req.op {
            Op::Signup { username, password, .. } => {
                if self.users.contains_key(username) {
                    return status(400, "Username already exists");
                }
                self.users.insert(
                    username.clone(),
                    User { password: password.clone(), motd: vec![], files: BTreeMap::new(), quota: None },
                );
                Ok(Body::Nothing)
            }
            Op::Login(user, password) => match self.users.get(user) {
                Some(u) if u.password == *password => {
                    self.tokens_issued += 1;
                    let token = format!("token-{}", self.tokens_issued);
                    self.tokens.insert(token.clone(), user.clone());
                    Ok(Body::Login { token, motd: u.motd.clone() })
                }
                _ => status(401, "Unknown user or invalid password"),
            },
            Op::Logout(user) => {
                self.owned(&who, user)?;
                self.tokens.remove(req.token.as_ref().unwrap());
                Ok(Body::Nothing)
            }
            Op::List(owner) => {
                let Some(u) = self.users.get(owner) else { return status(404, "No such user") };
                let own = who.as_ref() == Some(owner);
                let files: Vec<(String, u64, u64)> = u
                    .files
                    .iter()
                    .filter(|(_, f)| own || readable(f, &who))
                    .map(|(k, f)| (k.clone(), f.mtime, f.content.len() as u64))
                    .collect();
                let (quota, free) = match u.quota {
                    Some((b, n)) if own => {
                        let used = files.iter().map(|f| f.2).sum::<u64>();
                        let free = (b.saturating_sub(used), n.saturating_sub(files.len() as u64));
                        (u.quota, Some(free))
                    }
                    _ => (None, None),
                };
                Ok(Body::Files { files, quota, free })
            }
            Op::Get(owner, name) => {
                match self.users.get(owner).and_then(|u| u.files.get(name)) {
                    Some(f) if who.as_ref() == Some(owner) || readable(f, &who) => {
                        Ok(Body::Bytes(f.content.clone()))
                    }
                    Some(_) => status(403, "Access denied"),
                    None => status(404, format!("No file {}", name)),
                }
            }
            Op::GetAcls(owner, name) => match self.owned(&who, owner)?.files.get(name) {
                Some(f) => Ok(Body::Readers(f.readers.iter().cloned().collect())),
                None => status(404, format!("No file {}", name)),
            },
            Op::Put(owner, name, content) => {
                let now = self.clock + 1_000;
                let u = self.owned(&who, owner)?;
                if content.len() > 5_000 {
                    return status(413, "Too much");
                }
                if let Some((_, files)) = u.quota {
                    if !u.files.contains_key(name) && u.files.len() as u64 >= files {
                        return status(507, "Out of quota");
                    }
                }
                let r = match u.files.get_mut(name) {
                    Some(f) => {
                        f.content = content.clone();
                        f.mtime = now;
                        Ok(Body::Nothing)
                    }
                    None => {
                        let f = File { content: content.clone(), readers: BTreeSet::new(), mtime: now };
                        u.files.insert(name.clone(), f);
                        Ok(Body::Created)
                    }
                };
                self.clock = now;
                r
            }
            Op::PatchAcls(owner, name, add, remove) => {
                match self.owned(&who, owner)?.files.get_mut(name) {
                    Some(f) => {
                        for r in remove {
                            f.readers.remove(r);
                        }
                        f.readers.extend(add.iter().cloned());
                        Ok(Body::Nothing)
                    }
                    None => status(404, format!("No file {}", name)),
                }
            }
            Op::Delete(owner, name) => match self.owned(&who, owner)?.files.remove(name) {
                Some(_) => Ok(Body::Nothing),
                None => status(404, format!("No file {}", name)),
            },
            Op::Bad(m) => status(400, m.clone()),
        }
    }
}

fn readable(f: &File, who: &Option<String>) -> bool {
    f.readers.iter().any(|r| r.eq_ignore_ascii_case("public") || Some(r) == who.as_ref())
}

fn reason(code: u16) -> &'static str {
    match code {
        200 => "OK",
        201 => "Created",
        400 => "Bad Request",
        401 => "Unauthorized",
        403 => "Forbidden",
        404 => "Not Found",
        413 => "Payload Too Large",
        418 => "I'm a teapot",
        500 => "Internal Server Error",
        502 => "Bad Gateway",
        503 => "Service Unavailable",
        507 => "Insufficient Storage",
        _ => unreachable!(),
    }
}

fn kind(code: u16) -> ErrorKind {
    match code {
        400 | 413 => ErrorKind::InvalidInput,
        401 | 403 => ErrorKind::PermissionDenied,
        404 => ErrorKind::NotFound,
        503 => ErrorKind::AddrNotAvailable,
        _ => ErrorKind::Other,
    }
}

// The server.

#[derive(Default)]
struct Served {
    world: World,
    log: Vec<Request>,
}

fn unpercent(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            o.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}

fn unbase64(s: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.trim_end_matches('=').bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = (acc << 6) | u32::from(v);
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(o)
}

fn understand(method: &str, target: &str, headers: &[(String, String)], body: &[u8]) -> Request {
    let all = |name: &str| -> Vec<String> {
        headers.iter().filter(|(k, _)| k == name).map(|(_, v)| v.clone()).collect()
    };
    let one = |name: &str| all(name).first().cloned();
    let bad = |m: &str| Op::Bad(format!("{} in {} {} {:?}", m, method, target, headers));
    let auth = all("authorization");
    let mut token = None;
    if let [a] = auth.as_slice() {
        token = a.strip_prefix("Bearer ").map(|t| t.to_owned());
    }
    let op = (|| {
        if one("x-endbasic-client-version").is_none_or(|v| v.is_empty()) {
            return bad("no version");
        }
        if auth.len() > 1 {
            return bad("many credentials");
        }
        if target.contains(['?', '#']) {
            return bad("query");
        }
        let Some(parts) = target.split('/').map(unpercent).collect::<Option<Vec<_>>>() else {
            return bad("escapes");
        };
        let parts: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
        let is = |name: &str, value: &str| all(name) == [value];
        let o = |s: &str| s.to_owned();
        match (method, parts.as_slice()) {
            ("POST", ["", "api", "signup"]) => {
                let Ok(serde_json::Value::Object(v)) = serde_json::from_slice(body) else {
                    return bad("json");
                };
                let text = |k: &str| v.get(k).and_then(|v| v.as_str()).map(|s| s.to_owned());
                match (
                    text("username"),
                    text("password"),
                    text("email"),
                    v.get("promotional_email").and_then(|v| v.as_bool()),
                ) {
                    (Some(username), Some(password), Some(email), Some(promo)) if v.len() == 4 => {
                        Op::Signup { username, password, email, promo }
                    }
                    _ => bad("fields"),
                }
            }
            ("POST", ["", "api", "login"]) => {
                let cred = auth
                    .first()
                    .and_then(|a| a.strip_prefix("Basic "))
                    .and_then(unbase64)
                    .and_then(|b| String::from_utf8(b).ok());
                match cred.as_ref().and_then(|c| c.split_once(':')) {
                    Some((u, p)) if body.is_empty() => Op::Login(o(u), o(p)),
                    _ => bad("credentials"),
                }
            }
            ("POST", ["", "api", "users", u, "logout"]) if body.is_empty() => Op::Logout(o(u)),
            ("GET", ["", "api", "users", u, "files"]) => Op::List(o(u)),
            ("GET", ["", "api", "users", u, "files", f]) => {
                if is("x-endbasic-getcontent", "false") && is("x-endbasic-getreaders", "true") {
                    Op::GetAcls(o(u), o(f))
                } else if one("x-endbasic-getcontent").is_none() && one("x-endbasic-getreaders").is_none() {
                    Op::Get(o(u), o(f))
                } else {
                    bad("headers")
                }
            }
            ("PATCH", ["", "api", "users", u, "files", f]) => {
                let mut add = all("x-endbasic-addreader");
                let mut remove = all("x-endbasic-removereader");
                if is("x-endbasic-patchcontent", "true") && add.is_empty() && remove.is_empty() {
                    Op::Put(o(u), o(f), body.to_vec())
                } else if is("x-endbasic-patchcontent", "false") && body.is_empty() {
                    add.sort();
                    remove.sort();
                    Op::PatchAcls(o(u), o(f), add, remove)
                } else {
                    bad("headers")
                }
            }
            ("DELETE", ["", "api", "users", u, "files", f]) if body.is_empty() => Op::Delete(o(u), o(f)),
            _ => bad("route"),
        }
    })();
    Request { op, token }
}

fn json_space(s: &Option<(u64, u64)>) -> serde_json::Value {
    match s {
        None => serde_json::Value::Null,
        Some((bytes, files)) => serde_json::json!({"bytes": bytes, "files": files}),
    }
}

/// Serves the requests of one connection.
fn serve(stream: TcpStream, served: &Mutex<Served>) -> io::Result<()> {
    stream.set_nodelay(true)?;
    let mut out = stream.try_clone()?;
    let mut input = BufReader::new(stream);
    loop {
        let mut line = String::new();
        if input.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut first = line.split(' ');
        let method = first.next().unwrap_or("").to_owned();
        let target = first.next().unwrap_or("").to_owned();
        let mut headers = vec![];
        loop {
            let mut raw = vec![];
            if input.read_until(b'\n', &mut raw)? == 0 {
                return Ok(());
            }
            let line = String::from_utf8_lossy(&raw).trim_end().to_owned();
            if line.is_empty() {
                break;
            }
            if let Some((k, v)) = line.split_once(':') {
                headers.push((k.to_ascii_lowercase(), v.trim().to_owned()));
            }
        }
        let length = headers
            .iter()
            .find(|(k, _)| k == "content-length")
            .and_then(|(_, v)| v.parse::<usize>().ok())
            .unwrap_or(0);
        let mut body = vec![0; length];
        input.read_exact(&mut body)?;

        let req = understand(&method, &target, &headers, &body);
        let (answer, chunked) = {
            let mut s = served.lock().unwrap();
            let answer = s.world.handle(&req);
            s.log.push(req);
            (answer, s.log.len() % 3 == 2)
        };

        let mut extra = String::new();
        let (code, body) = match answer {
            Ok(Body::Nothing) => (200, vec![]),
            Ok(Body::Created) => (201, vec![]),
            Ok(Body::Login { token, motd }) => {
                (200, serde_json::json!({"access_token": token, "motd": motd}).to_string().into_bytes())
            }
            Ok(Body::Files { files, quota, free }) => {
                let files: Vec<serde_json::Value> = files
                    .iter()
                    .map(|(n, t, l)| serde_json::json!({"filename": n, "mtime": t, "length": l}))
                    .collect();
                let v = serde_json::json!({
                    "files": files, "disk_quota": json_space(&quota), "disk_free": json_space(&free)
                });
                (200, v.to_string().into_bytes())
            }
            Ok(Body::Bytes(b)) => (200, b),
            Ok(Body::Readers(r)) => {
                for r in r {
                    extra += &format!("X-EndBASIC-Reader: {}\r\n", r);
                }
                (200, vec![])
            }
            Err(Failure::Status(code, m)) => {
                (code, serde_json::json!({ "message": m }).to_string().into_bytes())
            }
            Err(Failure::Raw(code, m)) => (code, m.into_bytes()),
            Err(Failure::Garbage) => (200, b"{\"access_token\": ".to_vec()),
            Err(Failure::Drop) => return Ok(()),
        };
        let mut bytes = format!("HTTP/1.1 {} {}\r\n{}", code, reason(code), extra).into_bytes();
        if chunked {
            bytes.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            for part in body.chunks(7.max(body.len() / 2)) {
                bytes.extend(format!("{:x}\r\n", part.len()).bytes());
                bytes.extend(part);
                bytes.extend(b"\r\n");
            }
            bytes.extend(b"0\r\n\r\n");
        } else {
            bytes.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
            bytes.extend(body);
        }
        out.write_all(&bytes)?;
    }
}

/// Things that each worker keeps for all of its cases.
struct Env {
    rt: tokio::runtime::Runtime,
    served: Arc<Mutex<Served>>,
    service: Rc<RefCell<CloudService>>,
}

impl Env {
    fn new() -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let listener = TcpListener::bind(("127.0.0.1", 0)).unwrap();
        let port = listener.local_addr().unwrap().port();
        let served: Arc<Mutex<Served>> = Arc::default();
        let s = served.clone();
        std::thread::spawn(move || {
            for stream in listener.incoming().flatten() {
                let s = s.clone();
                std::thread::spawn(move || {
                    let _ = serve(stream, &s);
                });
            }
        });
        let service = CloudService::new(&format!("http://127.0.0.1:{}/", port)).unwrap();
        Env { rt, served, service: Rc::new(RefCell::new(service)) }
    }
}

thread_local! {
    static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
}

// The model of the client.

/// What a failure says.
#[derive(Clone, Debug, PartialEq)]
enum Fail {
    Exactly(ErrorKind, String),
    /// Whatever comes from the libraries below.
    Any,
}

fn clean(s: &str) -> String {
    s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect()
}

type Res<T> = Result<T, Fail>;

fn fail<T>(k: ErrorKind, m: impl Into<String>) -> Res<T> {
    Err(Fail::Exactly(k, m.into()))
}

struct Model {
    world: World,
    log: Vec<Request>,
    /// The user and its token.
    session: Option<(String, String)>,
    /// Mounted drives; cloud ones carry their user.
    drives: BTreeMap<String, Option<String>>,
    current: String,
    /// Files of the MEMORY drive.
    local: BTreeMap<String, (Vec<u8>, BTreeSet<String>)>,
}

enum Place {
    Local(String),
    Cloud(String, String),
}

impl Model {
    fn ask(&mut self, op: Op) -> Res<Body> {
        let token = match op {
            Op::Login(..) | Op::Signup { .. } => None,
            _ => self.session.as_ref().map(|s| s.1.clone()),
        };
        let req = Request { op, token };
        let answer = self.world.handle(&req);
        let expects_nothing = matches!(
            req.op,
            Op::Signup { .. } | Op::Logout(_) | Op::Put(..) | Op::PatchAcls(..) | Op::Delete(..)
        );
        let raw = matches!(req.op, Op::Get(..));
        self.log.push(req);
        match answer {
            Ok(b) => Ok(b),
            Err(Failure::Status(code, m)) => fail(
                kind(code),
                format!("{} (server code: {} {})", clean(&m), code, reason(code)),
            ),
            Err(Failure::Raw(code, m)) => fail(
                kind(code),
                format!(
                    "HTTP request returned status {} {} with text '{}'",
                    code,
                    reason(code),
                    clean(&m)
                ),
            ),
            Err(Failure::Garbage) if expects_nothing => Ok(Body::Nothing),
            Err(Failure::Garbage) if raw => Ok(Body::Bytes(b"{\"access_token\": ".to_vec())),
            Err(Failure::Garbage) | Err(Failure::Drop) => Err(Fail::Any),
        }
    }

    fn write(&mut self, op: Op) -> Res<()> {
        if self.session.is_none() {
            return fail(ErrorKind::PermissionDenied, "Not logged in yet");
        }
        self.ask(op).map(|_| ())
    }

    /// Locates a path, which is always well-formed.
    fn place(&self, path: &str) -> Res<Place> {
        let (drive, name) = match path.split_once(':') {
            Some((d, n)) => (d.to_uppercase(), n),
            None => (self.current.clone(), path),
        };
        let name = name.trim_start_matches('/').to_owned();
        match self.drives.get(&drive) {
            None => {
                let d = path.split_once(':').unwrap().0;
                fail(ErrorKind::NotFound, format!("Drive '{}' is not mounted", d.to_uppercase()))
            }
            Some(None) => Ok(Place::Local(name)),
            Some(Some(user)) => Ok(Place::Cloud(user.clone(), name)),
        }
    }

    fn missing<T>() -> Res<T> {
        fail(ErrorKind::NotFound, "Entry not found")
    }

    fn get(&mut self, path: &str) -> Res<Vec<u8>> {
        match self.place(path)? {
            Place::Local(n) => self.local.get(&n).map(|f| f.0.clone()).map_or_else(Self::missing, Ok),
            Place::Cloud(u, n) => match self.ask(Op::Get(u, n))? {
                Body::Bytes(b) => Ok(b),
                _ => unreachable!(),
            },
        }
    }

    fn put(&mut self, path: &str, content: &[u8]) -> Res<()> {
        match self.place(path)? {
            Place::Local(n) => {
                self.local.entry(n).or_default().0 = content.to_vec();
                Ok(())
            }
            Place::Cloud(u, n) => self.write(Op::Put(u, n, content.to_vec())),
        }
    }

    fn delete(&mut self, path: &str) -> Res<()> {
        match self.place(path)? {
            Place::Local(n) => self.local.remove(&n).map(|_| ()).map_or_else(Self::missing, Ok),
            Place::Cloud(u, n) => self.write(Op::Delete(u, n)),
        }
    }

    fn copy(&mut self, from: &str, to: &str) -> Res<()> {
        self.place_check(from)?;
        let content = self.get(from)?;
        let to = match to.strip_suffix(':') {
            Some(d) => {
                let name = from.rsplit([':', '/']).next().unwrap();
                format!("{}:/{}", d, name)
            }
            None => to.to_owned(),
        };
        self.put(&to, &content)
    }

    fn place_check(&self, path: &str) -> Res<()> {
        self.place(path).map(|_| ())
    }

    fn acls(&mut self, path: &str) -> Res<Vec<String>> {
        match self.place(path)? {
            Place::Local(n) => match self.local.get(&n) {
                Some(f) => Ok(f.1.iter().cloned().collect()),
                None => Self::missing(),
            },
            Place::Cloud(u, n) => match self.ask(Op::GetAcls(u, n))? {
                Body::Readers(r) => Ok(r),
                _ => unreachable!(),
            },
        }
    }

    fn update(&mut self, path: &str, mut add: Vec<String>, mut remove: Vec<String>) -> Res<()> {
        add.sort();
        remove.sort();
        match self.place(path)? {
            Place::Local(n) => match self.local.get_mut(&n) {
                Some(f) => {
                    for r in remove {
                        f.1.remove(&r);
                    }
                    f.1.extend(add);
                    Ok(())
                }
                None => Self::missing(),
            },
            Place::Cloud(u, n) => self.write(Op::PatchAcls(u, n, add, remove)),
        }
    }

    fn login(&mut self, user: &str, password: &str) -> Res<Vec<String>> {
        if self.session.is_some() {
            return fail(ErrorKind::Other, "Cannot LOGIN again before LOGOUT");
        }
        if self.drives.contains_key("CLOUD") {
            return fail(ErrorKind::AlreadyExists, "Drive 'CLOUD' is already mounted");
        }
        match self.ask(Op::Login(user.to_owned(), password.to_owned()))? {
            Body::Login { token, motd } => {
                self.session = Some((user.to_owned(), token));
                self.drives.insert("CLOUD".to_owned(), Some(user.to_owned()));
                Ok(motd)
            }
            _ => unreachable!(),
        }
    }

    fn logout(&mut self) -> Res<Vec<String>> {
        let Some((user, _)) = self.session.clone() else {
            return fail(ErrorKind::Other, "Must LOGIN first");
        };
        if self.current == "CLOUD" {
            return fail(ErrorKind::Other, "Cannot log out while the CLOUD drive is active");
        }
        let unmounted = self.drives.remove("CLOUD").is_some();
        self.ask(Op::Logout(user))?;
        self.session = None;
        let mut out = vec!["".to_owned()];
        if unmounted {
            out.push("    Unmounted CLOUD drive".to_owned());
        }
        out.push("    Good bye!".to_owned());
        out.push("".to_owned());
        Ok(out)
    }
}

struct Sys<'a> {
    env: &'a Env,
    machine: Machine,
    con: Rc<RefCell<Con>>,
    storage: Rc<RefCell<Storage>>,
}

impl Sys<'_> {
    /// Runs `code` and returns the lines that it printed and all the text that it wrote.
    fn cmd(&mut self, code: &str) -> Result<(Vec<String>, String), String> {
        self.con.borrow_mut().take();
        self.machine.compile(&mut code.as_bytes()).map_err(|e| format!("compile: {}", e))?;
        let r = self.env.rt.block_on(self.machine.exec());
        let (mut lines, mut written) = (vec![], String::new());
        for e in self.con.borrow_mut().take() {
            if let Some(l) = e.strip_prefix("print ") {
                lines.push(l.to_owned());
                written += l;
            } else if let Some(l) = e.strip_prefix("write ") {
                written += &l.replace('*', "");
            }
        }
        match r {
            Ok(None) => Ok((lines, written)),
            Ok(n) => Err(format!("unexpected exit {:?}", n)),
            Err(e) => Err(e.to_string()),
        }
    }
}

fn same_io<T: std::fmt::Debug + PartialEq>(got: io::Result<T>, want: Res<T>) -> CaseResult {
    let ok = match (&got, &want) {
        (Ok(g), Ok(w)) => g == w,
        (Err(e), Err(Fail::Exactly(k, m))) => e.kind() == *k && e.to_string() == *m,
        (Err(_), Err(Fail::Any)) => true,
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("got {:?} instead of {:?}", got, want)) }
}

fn same_cmd(got: Result<Vec<String>, String>, want: Res<Vec<String>>) -> CaseResult {
    let ok = match (&got, &want) {
        (Ok(g), Ok(w)) => g == w,
        (Err(e), Err(Fail::Exactly(_, m))) => *e == format!("1:1: {}", m),
        (Err(e), Err(Fail::Any)) => e.starts_with("1:1: "),
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("got {:?} instead of {:?}", got, want)) }
}

// Generation.

const USERS: &[&str] = &["alice", "bob", "user-123", "Eve.X", "sp ace", "ñandú", "100%41"];
const PASSWORDS: &[&str] = &["Zq9-secret", "pässword123", "a b c d 1 2", "12345678x", "s%3Au:b/c?1"];
const NAMES: &[&str] = &[
    "a.bas", "HELLO.BAS", "b", "some file.txt", "50%", "a%41b", "aAb", "q?x=1", "frag#1", "é日.txt",
    "x&y=z", "plus+plus", "semi;colon", "%2e%2e", "~tilde", "...", "%", "%2F", "quote\"d", "'", "tab\tbed",
    "{x}", "<y>", "[z]", "|", "^", "`", "@", "a,b", "=", "$1",
];

fn user(s: &mut Src) -> String {
    let n = if s.chance(3, 4) { 3 } else { USERS.len() };
    USERS[s.idx(n)].to_owned()
}

fn name(s: &mut Src) -> String {
    let n = if s.chance(1, 2) { 3 } else { NAMES.len() };
    NAMES[s.idx(n)].to_owned()
}

fn path(s: &mut Src, m: &Model, names: bool) -> String {
    let mut n = if names { name(s) } else { NAMES[s.idx(3)].to_owned() };
    let mut drives: Vec<String> = m.drives.keys().cloned().collect();
    if m.drives.contains_key("CLOUD") && s.chance(1, 2) {
        drives = vec!["CLOUD".to_owned()];
    } else if s.chance(1, 12) {
        drives = vec!["NOPE".to_owned()];
    }
    let drive = s.pick(&drives).clone();
    let how = s.weighted(&[5, 3, 2, 2]);
    if s.chance(2, 3) {
        // Prefer what exists.
        let names: Vec<String> = match m.drives.get(if how < 2 { &drive } else { &m.current }) {
            Some(Some(u)) => m.world.users.get(u).map(|u| u.files.keys().cloned().collect()).unwrap_or_default(),
            Some(None) => m.local.keys().cloned().collect(),
            None => vec![],
        };
        if !names.is_empty() {
            n = s.pick(&names).clone();
        }
    }
    match how {
        0 => format!("{}:/{}", drive, n),
        1 => format!("{}:{}", drive, n),
        2 => n,
        _ => format!("/{}", n),
    }
}

fn content(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[4, 1, 1]) {
        0 => s.below(40),
        1 => 0,
        _ => 4_900 + s.below(200),
    };
    if n > 1_000 {
        let c = s.below(256) as u8;
        return (0..n).map(|i| c.wrapping_mul(i as u8)).collect();
    }
    (0..n).map(|_| s.below(256) as u8).collect()
}

fn fault(s: &mut Src) -> Fault {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => {
            let code = *s.pick(&[400u16, 401, 403, 404, 413, 500, 503, 507, 418]);
            let m = s.pick(&["Some message", "", "two\nlines\u{7}", "ñ"]).to_string();
            Fault::Json(code, m)
        }
        1 => {
            let code = *s.pick(&[404u16, 500, 502, 503]);
            let m = s.pick(&["<html>\r\n</html>", "", "{\"msg\": 1}", "plain"]).to_string();
            Fault::Text(code, m)
        }
        2 => Fault::Garbage,
        _ => Fault::Drop,
    }
}

/// A signup dialog: the keys, the lines that must appear and what is finally asked for.
struct Dialog {
    keys: Vec<Key>,
    shown: Vec<String>,
    request: Option<Op>,
    /// Whether it is cut short.
    broken: bool,
    passwords: Vec<String>,
}

fn password_problem(p: &str) -> Option<&'static str> {
    if p.chars().count() < 8 {
        Some("Must be at least 8 characters long")
    } else if !p.chars().any(|c| c.is_alphabetic()) || !p.chars().any(|c| c.is_numeric()) {
        Some("Must contain letters and numbers")
    } else {
        None
    }
}

fn dialog(s: &mut Src) -> Dialog {
    let mut lines: Vec<String> = vec![];
    let mut shown = vec![];
    let mut passwords = vec![];
    let username = user(s);
    lines.push(username.clone());
    let mut tries = 0;
    let password = loop {
        tries += 1;
        let p = match s.weighted(&[5, 3]) {
            _ if tries > 4 => PASSWORDS[0].to_owned(),
            0 => s.pick(PASSWORDS).to_string(),
            _ => s
                .pick(&["Zq9", "", "ZZZZqqqq", "99999999", "ñññ12", "éééé1é2", "Zq9Zq9Z", "-------9", "日本語日本語日本語1"])
                .to_string(),
        };
        passwords.push(p.clone());
        lines.push(p.clone());
        if let Some(m) = password_problem(&p) {
            shown.push(format!("Invalid password: {}; try again.", m));
            continue;
        }
        if tries < 4 && s.chance(1, 5) {
            lines.push(s.pick(&["", "Zq9-secret ", "ZQ9-SECRET", "x"]).to_string());
            shown.push("Passwords do not match; try again.".to_owned());
            continue;
        }
        lines.push(p.clone());
        break p;
    };
    let email = s.pick(&["a@example.com", "", "not an email", "é@x"]).to_string();
    lines.push(email.clone());
    let mut bools = vec![];
    for i in 0..2 {
        let mut tries = 0;
        let b = loop {
            tries += 1;
            let (text, v) = *s.pick(&[
                ("y", Some(true)),
                ("Yes", Some(true)),
                ("TRUE ", Some(true)),
                ("", Some(false)),
                ("n", Some(false)),
                ("no", Some(false)),
                ("false", Some(false)),
                ("1", None),
                ("maybe", None),
                (" ", None),
                (" y", None),
            ]);
            let (text, v) = if tries > 3 { ("y", Some(true)) } else { (text, v) };
            lines.push(text.to_owned());
            match v {
                Some(v) => break v,
                None => shown.push("Invalid input; try again.".to_owned()),
            }
        };
        bools.push(b);
        if i == 0 {
            shown.push(format!("Username: {}", username));
            shown.push(format!("Email address: {}", email));
            shown.push(format!("Promotional email: {}", if b { "yes" } else { "no" }));
        }
    }
    let request =
        bools[1].then(|| Op::Signup { username, password, email, promo: bools[0] });
    let mut keys = vec![];
    for l in lines {
        keys.extend(l.chars().map(Key::Char));
        keys.push(Key::NewLine);
    }
    let mut broken = false;
    if s.chance(1, 5) {
        // Cut short, by the user or because of running out of input.
        keys.truncate(s.idx(keys.len()));
        if s.chance(1, 2) {
            keys.push(Key::Interrupt);
        }
        broken = true;
    }
    Dialog { keys, shown, request, broken, passwords }
}

struct Weights {
    session: u32,
    files: u32,
    odd_names: bool,
    steps: u64,
}

fn run(s: &mut Src, case: &mut Case, w: &Weights) -> CaseResult {
    let env = ENV.with(|e| e.borrow_mut().take()).unwrap_or_else(Env::new);
    let r = session(s, case, w, &env);
    // The service is kept for the next case only if nothing is left in it.
    let clean = r.is_ok() && {
        env.served.lock().unwrap().world.fault = None;
        let logged = env.service.borrow().is_logged_in();
        !logged || env.rt.block_on(env.service.borrow_mut().logout()).is_ok()
    };
    if clean {
        ENV.with(|e| *e.borrow_mut() = Some(env));
    }
    r
}

fn session(s: &mut Src, case: &mut Case, w: &Weights, env: &Env) -> CaseResult {
    let mut world = World { clock: 1_600_000_000, ..Default::default() };
    for u in USERS {
        let motd = match s.weighted(&[3, 1, 1]) {
            0 => vec![],
            1 => vec!["Welcome!".to_owned()],
            _ => vec!["First line".to_owned(), "".to_owned(), "Third one, ñ".to_owned()],
        };
        let mut files = BTreeMap::new();
        for _ in 0..s.below(3) {
            let f = File {
                content: content(s),
                readers: match s.below(4) {
                    0 => BTreeSet::from(["public".to_owned()]),
                    1 => BTreeSet::from([USERS[s.idx(3)].to_owned()]),
                    _ => BTreeSet::new(),
                },
                mtime: 1_500_000_000 + s.below(100_000_000),
            };
            files.insert(name(s), f);
        }
        let quota = if s.chance(1, 2) { Some((10_000, 3 + s.below(3))) } else { None };
        let password = PASSWORDS[s.idx(PASSWORDS.len())].to_owned();
        world.users.insert(u.to_string(), User { password, motd, files, quota });
    }

    {
        let mut served = env.served.lock().unwrap();
        served.world = world.clone();
        served.log.clear();
    }
    let (mut b, con, ..) = builder();
    let storage = Rc::new(RefCell::new(Storage::default()));
    endbasic_client::add_all(&mut b, env.service.clone(), con.clone(), storage.clone(), BASE_URL);
    con.borrow_mut().keys_left_is_error = true;
    let mut sys = Sys { env, machine: b.build(), con, storage };
    let mut m = Model {
        world,
        log: vec![],
        session: None,
        drives: BTreeMap::from([("MEMORY".to_owned(), None)]),
        current: "MEMORY".to_owned(),
        local: BTreeMap::new(),
    };

    let mut text = format!("{:?}\n", m.world.users);
    let steps = 2 + s.below(w.steps);
    let (mut requests, mut logins) = (0, 0);
    for _ in 0..steps {
        // Losing the connection while answering nothing at all can be told apart from being slow
        // only with a fresh one, so each fault applies to a single step.
        let f = if s.chance(1, 8) { Some(fault(s)) } else { None };
        m.world.fault = f.clone();
        env.served.lock().unwrap().world.fault = f.clone();
        let mut what = match &f {
            Some(f) => format!("[{:?}] ", f),
            None => String::new(),
        };
        let w_login = if m.session.is_none() { 6 + 3 * w.session } else { w.session };
        let r = match s.weighted(&[
            w_login,
            w.session,
            3 * w.session,
            2 * w.session,
            3,
            1,
            2,
            4 * w.files,
            4 * w.files,
            2 * w.files,
            3 * w.files,
            w.files,
            2 * w.files,
            2 * w.files,
        ]) {
            0 => {
                let u = user(s);
                let right = m.world.users.get(&u).map(|u| u.password.clone());
                let p = match right {
                    Some(p) if s.chance(6, 7) => p,
                    _ => s.pick(PASSWORDS).to_string(),
                };
                let ask = s.chance(1, 3);
                let width = *s.pick(&[80u16, 80, 50, 49, 30]);
                let already = m.session.is_some();
                let code = if ask {
                    format!("LOGIN {}", quote(&u))
                } else {
                    format!("LOGIN {}, {}", quote(&u), quote(&p))
                };
                what += &format!("{} (password {:?}, width {})", code, p, width);
                {
                    let mut c = sys.con.borrow_mut();
                    c.size = CharsXY::new(width, 24);
                    c.interactive = ask;
                    c.keys = if ask {
                        p.chars().map(Key::Char).chain([Key::NewLine]).collect()
                    } else {
                        Default::default()
                    };
                }
                let want = m.login(&u, &p).map(|motd| {
                    let mut out = vec![];
                    if ask {
                        out.push("".to_owned());
                    }
                    if width >= 50 && !motd.is_empty() {
                        out.push("".to_owned());
                        out.push("----- BEGIN SERVER MOTD -----".to_owned());
                        out.extend(motd);
                        out.push("-----  END SERVER MOTD  -----".to_owned());
                        out.push("".to_owned());
                    }
                    out
                });
                logins += u64::from(want.is_ok());
                case.label(if want.is_ok() { "login" } else { "login fails" });
                let got = sys.cmd(&code);
                if let Ok((_, written)) = &got {
                    if ask && !already && written.contains(&p) {
                        return Err(format!("{}: the password is visible", what));
                    }
                }
                sys.con.borrow_mut().keys.clear();
                same_cmd(got.map(|g| g.0), want)
            }
            1 => {
                what += "LOGOUT";
                let want = m.logout();
                case.label(if want.is_ok() { "logout" } else { "logout fails" });
                same_cmd(sys.cmd("LOGOUT").map(|g| g.0), want)
            }
            2 => {
                let p = path(s, &m, false);
                let mut args = vec![];
                for _ in 0..s.weighted(&[2, 3, 2, 1]) {
                    let who = match s.weighted(&[3, 2, 1]) {
                        0 => s.pick(&["bob", "user-123", "carol"]).to_string(),
                        1 => s.pick(&["public", "Public"]).to_string(),
                        _ => s.pick(&["x", "r", "+r", "a+r", "a-r+r"]).to_string(),
                    };
                    let sign = match s.weighted(&[8, 4, 1]) {
                        0 => s.pick(&["+r", "+R"]).to_string(),
                        1 => s.pick(&["-r", "-R"]).to_string(),
                        _ => s.pick(&["", "+", "+w", "r", "-", "+r ", "é", "éñ", "日", "+é"]).to_string(),
                    };
                    args.push(match s.below(25) {
                        0 => s.pick(&["+r", "-r", "", "é", "añ", "日r"]).to_string(),
                        _ => format!("{}{}", who, sign),
                    });
                }
                let mut code = format!("SHARE {}", quote(&p));
                let mut bad = None;
                let (mut add, mut remove) = (vec![], vec![]);
                for a in &args {
                    code += ", ";
                    let col = code.chars().fold(1, |col, c| match c {
                        '\t' => (col - 1) / 8 * 8 + 9,
                        _ => col + 1,
                    });
                    code += &quote(a);
                    let n = a.chars().count();
                    let who: String = a.chars().take(n.saturating_sub(2)).collect();
                    let change: String = a.chars().skip(n.saturating_sub(2)).collect();
                    match change.as_str() {
                        "+r" | "+R" if !who.is_empty() => add.push(who),
                        "-r" | "-R" if !who.is_empty() => remove.push(who),
                        _ if bad.is_none() => {
                            bad = Some(format!(
                                "1:{}: Invalid ACL '{}': must be of the form \"username+r\" or \"username-r\"",
                                col, a
                            ))
                        }
                        _ => (),
                    }
                }
                what += &code;
                sys.con.borrow_mut().size = CharsXY::new(200, 24);
                if let Some(bad) = bad {
                    case.label("bad ACL");
                    match sys.cmd(&code) {
                        Err(e) if e == bad => Ok(()),
                        r => Err(format!("got {:?} instead of {:?}", r, bad)),
                    }
                } else if args.is_empty() {
                    case.label("show ACLs");
                    let want = m.acls(&p).map(|r| {
                        let mut out = vec!["".to_owned()];
                        if r.is_empty() {
                            out.push(format!("    No ACLs on {}", p));
                        } else {
                            out.push(format!("    Reader ACLs on {}:", p));
                            out.extend(r.iter().map(|r| format!("    {}", r)));
                        }
                        out.push("".to_owned());
                        out
                    });
                    same_cmd(sys.cmd(&code).map(|g| g.0), want)
                } else {
                    case.label("change ACLs");
                    let public = add.iter().any(|r| r.eq_ignore_ascii_case("public"));
                    let cloud = matches!(m.place(&p), Ok(Place::Cloud(..)));
                    let leaf = p.rsplit([':', '/']).next().unwrap().to_owned();
                    let want = m.update(&p, add, remove);
                    let got = sys.cmd(&code);
                    match (got, want) {
                        (Ok(_), Ok(())) if public && cloud && leaf.contains(char::is_whitespace) => Ok(()),
                        (Ok((lines, _)), Ok(())) if public && cloud => {
                            case.label("made public");
                            let url = format!(
                                "    {}?run={}/{}",
                                BASE_URL,
                                m.session.as_ref().unwrap().0,
                                leaf
                            );
                            if lines.contains(&url) {
                                Ok(())
                            } else {
                                Err(format!("{:?} does not give {}", lines, url))
                            }
                        }
                        (Ok((lines, _)), Ok(())) if public => {
                            // The files of other drives have no address.
                            if m.session.is_some() || lines.is_empty() {
                                Ok(())
                            } else {
                                Err(format!("printed {:?}", lines))
                            }
                        }
                        (got, want) => same_cmd(got.map(|g| g.0), want.map(|_| vec![])),
                    }
                }
            }
            3 => {
                let d = dialog(s);
                what += &format!("SIGNUP {:?}", d.keys);
                {
                    let mut c = sys.con.borrow_mut();
                    c.size = CharsXY::new(80, 24);
                    c.interactive = true;
                    c.keys = d.keys.iter().cloned().collect();
                }
                case.label(match (&d.request, d.broken) {
                    (_, true) => "signup aborted",
                    (Some(_), _) => "signup",
                    (None, _) => "signup declined",
                });
                let got = sys.cmd("SIGNUP");
                sys.con.borrow_mut().keys.clear();
                let want = match (d.broken, &d.request) {
                    (false, Some(op)) => m.ask(op.clone()).map(|_| ()),
                    _ => Ok(()),
                };
                match (got, want) {
                    (Err(_), _) if d.broken => Ok(()),
                    (Ok(_), _) if d.broken => Err("did not notice the lack of answers".to_owned()),
                    (Ok((lines, written)), Ok(())) => {
                        if d.passwords.iter().any(|p| p.len() > 6 && written.contains(p)) {
                            return Err(format!("{}: the password is visible", what));
                        }
                        let told: Vec<&String> = lines
                            .iter()
                            .filter(|l| {
                                ["Invalid ", "Passwords do", "Username: ", "Email address: ", "Promotional email: "]
                                    .iter()
                                    .any(|p| l.starts_with(p))
                            })
                            .collect();
                        let created = lines.iter().any(|l| l.contains("has been created"));
                        if told != d.shown.iter().collect::<Vec<_>>() {
                            Err(format!("told {:?} instead of {:?}", told, d.shown))
                        } else if created != d.request.is_some() {
                            Err(format!("unexpected end: {:?}", lines))
                        } else {
                            Ok(())
                        }
                    }
                    (got, want) => same_cmd(got.map(|g| g.0), want.map(|_| vec![])),
                }
            }
            4 => {
                let u = user(s);
                let n = s.pick(&["X", "Y", "x", "CLOUD"]).to_string();
                let uri = format!("cloud://{}", u);
                what += &format!("mount {} {}", n, uri);
                {
                    let key = n.to_uppercase();
                    let want = if m.drives.contains_key(&key) {
                        fail(ErrorKind::AlreadyExists, format!("Drive '{}' is already mounted", n))
                    } else {
                        m.drives.insert(key, Some(u));
                        Ok(())
                    };
                    same_io(sys.storage.borrow_mut().mount(&n, &uri), want)
                }
            }
            5 => {
                let n = s.pick(&["X", "Y", "CLOUD"]).to_string();
                what += &format!("unmount {}", n);
                let want = if !m.drives.contains_key(&n) {
                    fail(ErrorKind::NotFound, format!("Drive '{}' is not mounted", n))
                } else if m.current == n {
                    fail(ErrorKind::AlreadyExists, format!("Cannot unmount the current drive '{}'", n))
                } else {
                    m.drives.remove(&n);
                    Ok(())
                };
                same_io(sys.storage.borrow_mut().unmount(&n), want)
            }
            6 => {
                let keys: Vec<String> = m.drives.keys().cloned().collect();
                let n = s.pick(&keys).to_string();
                what += &format!("cd {}:", n);
                m.current = n.clone();
                same_io(sys.storage.borrow_mut().cd(&format!("{}:", n)), Ok(()))
            }
            7 => {
                let p = path(s, &m, w.odd_names);
                what += &format!("get {:?}", p);
                let want = m.get(&p);
                case.label(if want.is_ok() { "get" } else { "get fails" });
                same_io(env.rt.block_on(sys.storage.borrow().get(&p)), want)
            }
            8 => {
                let p = path(s, &m, w.odd_names);
                let c = content(s);
                what += &format!("put {:?} {} bytes", p, c.len());
                let want = m.put(&p, &c);
                case.label(if want.is_ok() { "put" } else { "put fails" });
                same_io(env.rt.block_on(sys.storage.borrow_mut().put(&p, &c)), want)
            }
            9 => {
                let p = path(s, &m, w.odd_names);
                what += &format!("delete {:?}", p);
                let want = m.delete(&p);
                case.label(if want.is_ok() { "delete" } else { "delete fails" });
                same_io(env.rt.block_on(sys.storage.borrow_mut().delete(&p)), want)
            }
            10 => {
                let p = path(s, &m, w.odd_names);
                let to = if s.chance(1, 4) {
                    let keys: Vec<String> = m.drives.keys().cloned().collect();
                    format!("{}:", s.pick(&keys))
                } else {
                    path(s, &m, w.odd_names)
                };
                what += &format!("copy {:?} {:?}", p, to);
                let want = m.copy(&p, &to);
                case.label(if want.is_ok() { "copy" } else { "copy fails" });
                same_io(env.rt.block_on(sys.storage.borrow_mut().copy(&p, &to)), want)
            }
            11 => {
                let p = path(s, &m, w.odd_names);
                what += &format!("acls {:?}", p);
                let want = m.acls(&p);
                let got = env.rt.block_on(sys.storage.borrow().get_acls(&p)).map(|a| {
                    let mut r = a.readers().to_vec();
                    r.sort();
                    r
                });
                same_io(got, want)
            }
            12 => {
                let p = path(s, &m, w.odd_names);
                let mut list = |n| -> Vec<String> {
                    (0..s.below(n)).map(|_| s.pick(&["bob", "alice", "user-123", "a b", "x;y"]).to_string()).collect()
                };
                let (add, remove) = (list(4), list(3));
                what += &format!("acls {:?} {:?} {:?}", p, add, remove);
                let want = m.update(&p, add.clone(), remove.clone());
                let (add, remove) =
                    (FileAcls::default().with_readers(add), FileAcls::default().with_readers(remove));
                same_io(env.rt.block_on(sys.storage.borrow_mut().update_acls(&p, &add, &remove)), want)
            }
            _ => {
                let keys: Vec<String> = m.drives.keys().cloned().collect();
                let d = s.pick(&keys).to_string();
                what += &format!("list {}:", d);
                let got = env.rt.block_on(sys.storage.borrow().enumerate(&format!("{}:", d)));
                match m.drives[&d].clone() {
                    None => Ok(()),
                    Some(u) => {
                        let want = m.ask(Op::List(u)).map(|b| match b {
                            Body::Files { files, quota, free } => (files, quota, free),
                            _ => unreachable!(),
                        });
                        case.label(if want.is_ok() { "list" } else { "list fails" });
                        let got = got.map(|f| {
                            let files: Vec<(String, u64, u64)> = f
                                .dirents()
                                .iter()
                                .map(|(k, v)| (k.clone(), v.date.unix_timestamp() as u64, v.length))
                                .collect();
                            let space = |d: &Option<endbasic_std::storage::DiskSpace>| {
                                d.map(|d| (d.bytes, d.files))
                            };
                            (files, space(f.disk_quota()), space(f.disk_free()))
                        });
                        same_io(got, want)
                    }
                }
            }
        };
        text += &format!("{}\n", what);
        case.set_text(text.clone());

        let mut served = env.served.lock().unwrap();
        served.world.fault = None;
        m.world.fault = None;
        let (mut log, world) = (std::mem::take(&mut served.log), served.world.clone());
        drop(served);
        let wanted = std::mem::take(&mut m.log);
        requests += wanted.len();
        r.map_err(|e| format!("{}: {}", what, e))?;
        if f == Some(Fault::Drop) && wanted.len() < log.len() && log.first() == wanted.first() {
            // Asking again after losing the connection is fine.
            return Ok(());
        }
        for r in log.iter_mut() {
            if let Op::PatchAcls(_, _, a, b) = &mut r.op {
                a.sort();
                b.sort();
            }
        }
        if log != wanted {
            return Err(format!("{}: asked for {:?} instead of {:?}", what, log, wanted));
        }
        if world != m.world {
            return Err(format!("{}: the service has {:?} instead of {:?}", what, world, m.world));
        }
        let who = sys.env.service.borrow().logged_in_username();
        if who != m.session.as_ref().map(|s| s.0.clone()) || who.is_some() != env.service.borrow().is_logged_in() {
            return Err(format!("{}: logged in as {:?} instead of {:?}", what, who, m.session));
        }
        let storage = sys.storage.borrow();
        let mounted: Vec<String> = storage.mounted().into_keys().map(|k| k.to_owned()).collect();
        if mounted != m.drives.keys().cloned().collect::<Vec<_>>() {
            return Err(format!("{}: mounted {:?} instead of {:?}", what, mounted, m.drives));
        }
        if storage.cwd() != format!("{}:/", m.current) {
            return Err(format!("{}: in {} instead of {}", what, storage.cwd(), m.current));
        }
    }
    case.nontrivial = requests >= 2 && (logins > 0 || w.session < w.files);
    Ok(())
}

fn sessions(s: &mut Src, case: &mut Case) -> CaseResult {
    run(s, case, &Weights { session: 4, files: 1, odd_names: false, steps: 14 })
}

fn files(s: &mut Src, case: &mut Case) -> CaseResult {
    run(s, case, &Weights { session: 1, files: 5, odd_names: true, steps: 24 })
}

pub fn props() -> Vec<Prop> {
    let assumptions: &'static [&'static str] = &[
        "the service behaves as the fake that the harness runs on the loopback network",
        "the names of users have no slashes nor colons",
    ];
    vec![
        Prop {
            id: "V01",
            rule: "at least two requests were made and a login succeeded",
            quick: 60_000,
            thorough: 3_000_000,
            run: sessions,
            assumptions,
        },
        Prop {
            id: "V02",
            rule: "at least two requests were made",
            quick: 60_000,
            thorough: 3_000_000,
            run: files,
            assumptions,
        },
    ]
}
