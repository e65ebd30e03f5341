//! Properties of the storage subsystem and its commands.

use crate::engine::*;
use crate::std_props::quote;
use crate::std_sut::*;
use async_trait::async_trait;
use endbasic_std::Machine;
use endbasic_std::storage::*;
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use time::OffsetDateTime;

/// Files of the targets of the recording drives.  These outlive the drives mounted on them.
#[derive(Default)]
pub struct Targets {
    pub files: BTreeMap<String, BTreeMap<String, Vec<u8>>>,
    /// Targets that were asked for.
    pub created: Vec<String>,
    /// Anything that should not have reached a drive.
    pub bad: Vec<String>,
}

pub type Shared = Rc<RefCell<Targets>>;

const CAPACITY: usize = 24;

/// Checks that a name given to a drive is that of a file within it.
fn pure(name: &str) -> bool {
    !name.is_empty() && name != "." && name != ".." && !name.contains(['/', '\\', ':'])
}

fn stamp(name: &str) -> OffsetDateTime {
    OffsetDateTime::from_unix_timestamp(1_500_000_000 + 86_461 * name.len() as i64).unwrap()
}

fn stamp_text(name: &str) -> String {
    let d = stamp(name);
    format!(
        "{:04}-{:02}-{:02} {:02}:{:02}",
        d.year(),
        u8::from(d.month()),
        d.day(),
        d.hour(),
        d.minute()
    )
}

/// A drive on a shared target: `ro` is read-only, `quota` has limits, any other is plain.
struct RecDrive {
    target: String,
    shared: Shared,
}

impl RecDrive {
    fn check(&self, name: &str) {
        if !pure(name) {
            self.shared.borrow_mut().bad.push(format!("target {} got name '{}'", self.target, name));
        }
    }
}

fn missing() -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, "No such thing")
}

#[async_trait(?Send)]
impl Drive for RecDrive {
    async fn delete(&mut self, name: &str) -> io::Result<()> {
        self.check(name);
        if self.target == "ro" {
            return Err(io::Error::other("Read-only target"));
        }
        let mut s = self.shared.borrow_mut();
        s.files.get_mut(&self.target).and_then(|f| f.remove(name)).map(|_| ()).ok_or_else(missing)
    }

    async fn enumerate(&self) -> io::Result<DriveFiles> {
        let s = self.shared.borrow();
        let files = &s.files[&self.target];
        let used: usize = files.values().map(|c| c.len()).sum();
        let entries = files
            .iter()
            .map(|(k, v)| (k.clone(), Metadata { date: stamp(k), length: v.len() as u64 }))
            .collect();
        let quota = self.target == "quota";
        Ok(DriveFiles::new(
            entries,
            quota.then(|| DiskSpace::new(CAPACITY as u64, 5)),
            quota.then(|| DiskSpace::new((CAPACITY - used) as u64, 0)),
        ))
    }

    async fn get(&self, name: &str) -> io::Result<Vec<u8>> {
        self.check(name);
        self.shared.borrow().files[&self.target].get(name).cloned().ok_or_else(missing)
    }

    async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
        self.check(name);
        if self.target == "ro" {
            return Err(io::Error::other("Read-only target"));
        }
        let mut s = self.shared.borrow_mut();
        let files = s.files.get_mut(&self.target).unwrap();
        let used: usize = files.iter().filter(|(k, _)| *k != name).map(|(_, c)| c.len()).sum();
        if self.target == "quota" && used + content.len() > CAPACITY {
            return Err(io::Error::other("Target full"));
        }
        files.insert(name.to_owned(), content.to_owned());
        Ok(())
    }

    fn system_path(&self, name: &str) -> Option<PathBuf> {
        (self.target != "quota").then(|| PathBuf::from(format!("/sys/{}/{}", self.target, name)))
    }
}

pub struct RecFactory(pub Shared);

impl DriveFactory for RecFactory {
    fn create(&self, target: &str) -> io::Result<Box<dyn Drive>> {
        let mut s = self.0.borrow_mut();
        s.created.push(target.to_owned());
        if target == "fail" {
            return Err(io::Error::other("Cannot open target"));
        }
        s.files.entry(target.to_owned()).or_insert_with(|| {
            if target == "ro" {
                BTreeMap::from([
                    ("b.bas".to_owned(), b"ro".to_vec()),
                    ("big".to_owned(), vec![b'x'; CAPACITY - 3]),
                ])
            } else {
                BTreeMap::new()
            }
        });
        Ok(Box::new(RecDrive { target: target.to_owned(), shared: self.0.clone() }))
    }
}

/// A drive on a real directory that refuses to go out of it even if asked to.
struct Fenced {
    inner: DirectoryDrive,
    shared: Shared,
}

impl Fenced {
    fn check(&self, name: &str) -> io::Result<()> {
        if pure(name) {
            return Ok(());
        }
        self.shared.borrow_mut().bad.push(format!("directory got name '{}'", name));
        Err(io::Error::other("Out of the fence"))
    }
}

#[async_trait(?Send)]
impl Drive for Fenced {
    async fn delete(&mut self, name: &str) -> io::Result<()> {
        self.check(name)?;
        self.inner.delete(name).await
    }
    async fn enumerate(&self) -> io::Result<DriveFiles> {
        self.inner.enumerate().await
    }
    async fn get(&self, name: &str) -> io::Result<Vec<u8>> {
        self.check(name)?;
        self.inner.get(name).await
    }
    async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
        self.check(name)?;
        self.inner.put(name, content).await
    }
    fn system_path(&self, name: &str) -> Option<PathBuf> {
        self.inner.system_path(name)
    }
}

struct FencedFactory {
    dir: PathBuf,
    shared: Shared,
}

impl DriveFactory for FencedFactory {
    fn create(&self, target: &str) -> io::Result<Box<dyn Drive>> {
        let inner = DirectoryDrive::new(self.dir.join(target))?;
        Ok(Box::new(Fenced { inner, shared: self.shared.clone() }))
    }
}

/// A directory that is removed once done.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("vp-{}-{}", std::process::id(), n));
        std::fs::create_dir(&dir).unwrap();
        Scratch(dir.canonicalize().unwrap())
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, PartialEq)]
enum Kind {
    Memory(BTreeMap<String, (Vec<u8>, BTreeSet<String>)>),
    Rec(String),
    Dir(String),
}

struct MDrive {
    uri: String,
    kind: Kind,
}

/// A parsed location.
#[derive(Clone, Debug)]
struct Loc {
    drive: Option<String>,
    path: String,
}

impl Loc {
    fn leaf(&self) -> Option<&str> {
        let l = self.path.strip_prefix('/').unwrap_or(&self.path);
        if l.is_empty() { None } else { Some(l) }
    }
}

fn drive_key(s: &str) -> Result<String, String> {
    if s.is_empty() || s.contains([':', '\\', '/', '.']) {
        return Err(format!("Invalid drive name '{}'", s));
    }
    Ok(s.to_uppercase())
}

fn parse_loc(s: &str) -> Result<Loc, String> {
    let parts: Vec<&str> = s.split(':').collect();
    let (drive, path) = match parts.len() {
        1 => (None, parts[0]),
        2 => (Some(drive_key(parts[0])?), parts[1]),
        _ => return Err(format!("Too many : separators in path '{}'", s)),
    };
    if path.is_empty() {
        return Ok(Loc { drive, path: "/".to_owned() });
    }
    let leaf = path.strip_prefix('/').unwrap_or(path);
    if path.contains('\\') || leaf == "." || leaf == ".." {
        return Err(format!("Invalid path '{}'", s));
    }
    if leaf.contains('/') {
        return Err(format!("Too many / separators in path '{}'", s));
    }
    Ok(Loc { drive, path: path.to_owned() })
}

struct Model {
    drives: BTreeMap<String, MDrive>,
    current: String,
    targets: BTreeMap<String, BTreeMap<String, Vec<u8>>>,
    dirs: BTreeMap<String, BTreeMap<String, Vec<u8>>>,
    scratch: String,
}

type Res<T> = Result<T, String>;

impl Model {
    fn canonical(&self, s: &str) -> Res<String> {
        let l = parse_loc(s)?;
        Ok(format!("{}:{}", l.drive.as_ref().unwrap_or(&self.current), l.path))
    }

    fn canonical_ext(&self, s: &str, ext: &str) -> Res<String> {
        let c = self.canonical(s)?;
        let l = parse_loc(s)?;
        let Some(leaf) = l.leaf() else {
            return Err(format!("Missing file name in path '{}'", s));
        };
        if leaf.contains('.') {
            return Ok(c);
        }
        let lower = leaf.chars().any(|c| c.is_ascii_lowercase());
        Ok(format!("{}.{}", c, if lower { ext.to_owned() } else { ext.to_ascii_uppercase() }))
    }

    fn mount(&mut self, uri: &str, name: &str) -> Res<()> {
        let (scheme, target) = match uri.find("://") {
            Some(p) if p > 0 => (&uri[..p], &uri[p + 3..]),
            _ => return Err("Mount URI must be of the form scheme://path".to_owned()),
        };
        let scheme_l = scheme.to_lowercase();
        if !["memory", "rec", "dir"].contains(&scheme_l.as_str()) {
            return Err(format!("Unknown mount scheme '{}'", scheme));
        }
        let key = drive_key(name)?;
        if self.drives.contains_key(&key) {
            return Err(format!("Drive '{}' is already mounted", name));
        }
        let kind = match scheme_l.as_str() {
            "memory" if !target.is_empty() => {
                return Err("Cannot specify a path to mount an in-memory drive".to_owned());
            }
            "memory" => Kind::Memory(BTreeMap::new()),
            "rec" if target == "fail" => return Err("Cannot open target".to_owned()),
            "rec" => {
                let f = self.targets.entry(target.to_owned()).or_default();
                if target == "ro" && f.is_empty() {
                    f.insert("b.bas".to_owned(), b"ro".to_vec());
                    f.insert("big".to_owned(), vec![b'x'; CAPACITY - 3]);
                }
                Kind::Rec(target.to_owned())
            }
            _ => {
                self.dirs.entry(target.to_owned()).or_default();
                Kind::Dir(target.to_owned())
            }
        };
        self.drives.insert(key, MDrive { uri: uri.to_owned(), kind });
        Ok(())
    }

    fn unmount(&mut self, name: &str) -> Res<()> {
        let key = drive_key(name)?;
        if !self.drives.contains_key(&key) {
            return Err(format!("Drive '{}' is not mounted", name));
        }
        if key == self.current {
            return Err(format!("Cannot unmount the current drive '{}'", name));
        }
        self.drives.remove(&key);
        Ok(())
    }

    fn cd(&mut self, s: &str) -> Res<()> {
        let l = parse_loc(s)?;
        if l.leaf().is_some() {
            return Err("Cannot cd to a file".to_owned());
        }
        if let Some(d) = l.drive {
            if !self.drives.contains_key(&d) {
                return Err(format!("Drive '{}' is not mounted", d));
            }
            self.current = d;
        }
        Ok(())
    }

    fn kind(&mut self, l: &Loc) -> Res<Kind> {
        let key = l.drive.as_ref().unwrap_or(&self.current);
        match self.drives.get(key) {
            Some(d) => Ok(d.kind.clone()),
            None => Err(format!("Drive '{}' is not mounted", key)),
        }
    }

    fn leaf(&mut self, raw: &str, l: &Loc) -> Res<String> {
        l.leaf().map(str::to_owned).ok_or_else(|| format!("Missing file name in path '{}'", raw))
    }

    fn files(&self, kind: &Kind) -> BTreeMap<String, Vec<u8>> {
        match kind {
            Kind::Memory(f) => f.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect(),
            Kind::Rec(t) => self.targets[t].clone(),
            Kind::Dir(t) => self.dirs[t].clone(),
        }
    }

    fn no_file(kind: &Kind) -> String {
        match kind {
            Kind::Memory(_) => "Entry not found",
            Kind::Rec(_) => "No such thing",
            Kind::Dir(_) => "No such file or directory (os error 2)",
        }
        .to_owned()
    }

    fn get_at(&mut self, raw: &str, l: &Loc) -> Res<Vec<u8>> {
        let leaf = self.leaf(raw, l)?;
        let kind = self.kind(l)?;
        self.files(&kind).remove(&leaf).ok_or_else(|| Self::no_file(&kind))
    }

    fn get(&mut self, s: &str) -> Res<Vec<u8>> {
        let l = parse_loc(s)?;
        self.get_at(s, &l)
    }

    fn put_at(&mut self, raw: &str, l: &Loc, content: &[u8]) -> Res<()> {
        let leaf = self.leaf(raw, l)?;
        let kind = self.kind(l)?;
        match kind {
            Kind::Memory(_) => {
                let key = l.drive.clone().unwrap_or(self.current.clone());
                if let Kind::Memory(f) = &mut self.drives.get_mut(&key).unwrap().kind {
                    f.entry(leaf).or_default().0 = content.to_owned();
                }
            }
            Kind::Rec(t) => {
                if t == "ro" {
                    return Err("Read-only target".to_owned());
                }
                let f = self.targets.get_mut(&t).unwrap();
                let used: usize = f.iter().filter(|(k, _)| **k != leaf).map(|(_, v)| v.len()).sum();
                if t == "quota" && used + content.len() > CAPACITY {
                    return Err("Target full".to_owned());
                }
                f.insert(leaf, content.to_owned());
            }
            Kind::Dir(t) => {
                self.dirs.get_mut(&t).unwrap().insert(leaf, content.to_owned());
            }
        }
        Ok(())
    }

    fn put(&mut self, s: &str, content: &[u8]) -> Res<()> {
        let l = parse_loc(s)?;
        self.put_at(s, &l, content)
    }

    fn delete(&mut self, s: &str) -> Res<()> {
        let l = parse_loc(s)?;
        let leaf = self.leaf(s, &l)?;
        let kind = self.kind(&l)?;
        if kind == Kind::Rec("ro".to_owned()) {
            return Err("Read-only target".to_owned());
        }
        if !self.files(&kind).contains_key(&leaf) {
            return Err(Self::no_file(&kind));
        }
        match kind {
            Kind::Memory(_) => {
                let key = l.drive.clone().unwrap_or(self.current.clone());
                if let Kind::Memory(f) = &mut self.drives.get_mut(&key).unwrap().kind {
                    f.remove(&leaf);
                }
            }
            Kind::Rec(t) => {
                self.targets.get_mut(&t).unwrap().remove(&leaf);
            }
            Kind::Dir(t) => {
                self.dirs.get_mut(&t).unwrap().remove(&leaf);
            }
        }
        Ok(())
    }

    fn copy(&mut self, src: &str, dest: &str) -> Res<()> {
        let s = parse_loc(src)?;
        let Some(name) = s.leaf() else {
            return Err(format!("Missing file name in copy source path '{}'", src));
        };
        let mut d = parse_loc(dest)?;
        if d.leaf().is_none() {
            d.path = format!("/{}", name);
        }
        let content = self.get_at(src, &s)?;
        self.put_at(dest, &d, &content)
    }

    fn enumerate(&mut self, s: &str) -> Res<Kind> {
        let l = parse_loc(s)?;
        if l.leaf().is_some() {
            return Err(format!("Location '{}' is not a directory", s));
        }
        self.kind(&l)
    }

    fn dir(&mut self, s: &str, narrow: bool) -> Res<Vec<String>> {
        let canonical = self.canonical(s)?;
        let kind = self.enumerate(s)?;
        let files = self.files(&kind);
        let mut v = vec![String::new(), format!("    Directory of {}", canonical), String::new()];
        if !narrow {
            v.push("    Modified              Size    Name".to_owned());
        }
        let mut total = 0;
        for (name, content) in &files {
            if narrow {
                v.push(format!("    {}", name));
            } else {
                let date = match &kind {
                    Kind::Memory(_) => "2020-05-06 09:37".to_owned(),
                    Kind::Rec(_) => stamp_text(name),
                    Kind::Dir(_) => "????-??-?? ??:??".to_owned(),
                };
                v.push(format!("    {}    {:>6}    {}", date, content.len(), name));
            }
            total += content.len();
        }
        if !files.is_empty() {
            v.push(String::new());
        }
        if narrow {
            v.push(format!("    {} file(s)", files.len()));
        } else {
            v.push(format!("    {} file(s), {} bytes", files.len(), total));
            if kind == Kind::Rec("quota".to_owned()) {
                v.push(format!("    {} of {} bytes free", CAPACITY - total, CAPACITY));
            }
        }
        v.push(String::new());
        Ok(v)
    }

    fn system_path(&mut self, s: &str) -> Res<Option<String>> {
        let l = parse_loc(s)?;
        Ok(match self.kind(&l)? {
            Kind::Memory(_) => None,
            Kind::Rec(t) if t == "quota" => None,
            Kind::Rec(t) => Some(format!("/sys/{}/{}", t, l.leaf().unwrap_or(""))),
            Kind::Dir(t) => Some(format!("{}/{}/{}", self.scratch, t, l.leaf().unwrap_or(""))),
        })
    }

    fn pwd(&mut self) -> Vec<String> {
        let cwd = format!("{}:/", self.current);
        let path = match self.system_path(&cwd).unwrap() {
            Some(p) => format!("    System location: {}", p),
            None => "    No system location available".to_owned(),
        };
        vec![String::new(), format!("    Working directory: {}", cwd), path, String::new()]
    }

    fn drives_text(&self) -> Vec<String> {
        // The implementation aligns by bytes.
        let w = self.drives.keys().map(|k| k.len()).max().unwrap().max(4);
        let pad = |s: &str| format!("{}{}", s, " ".repeat(w - s.len()));
        let mut v = vec![String::new(), format!("    {}    Target", pad("Name"))];
        for (k, d) in &self.drives {
            v.push(format!("    {}    {}", pad(k), d.uri));
        }
        v.push(String::new());
        v.push(format!("    {} drive(s)", self.drives.len()));
        v.push(String::new());
        v
    }

    fn acls(&mut self, s: &str, update: Option<(&[String], &[String])>) -> Res<Vec<String>> {
        let l = parse_loc(s)?;
        let leaf = self.leaf(s, &l)?;
        let Kind::Memory(_) = self.kind(&l)? else {
            return Err("Operation not supported by drive".to_owned());
        };
        let key = l.drive.clone().unwrap_or(self.current.clone());
        let Kind::Memory(f) = &mut self.drives.get_mut(&key).unwrap().kind else { unreachable!() };
        let Some((_, readers)) = f.get_mut(&leaf) else {
            return Err("Entry not found".to_owned());
        };
        if let Some((add, remove)) = update {
            remove.iter().for_each(|r| {
                readers.remove(r);
            });
            readers.extend(add.iter().cloned());
        }
        Ok(readers.iter().cloned().collect())
    }
}

const NAMES: &[&str] =
    &["a", "A", "b.bas", "B.BAS", "Foo", "x.y.z", ".h", "ñ", "日本.bas", "a b", "...", "big"];
const DRIVES: &[&str] = &["d1", "D1", "memory", "Memory", "x", "ß", "SS", "ñ", "a b", "x-y"];

fn some_junk(s: &mut Src) -> String {
    (0..s.range(0, 6)).map(|_| *s.pick(&['a', '/', ':', '.', '\\', 'x', '1', 'd', ' '])).collect()
}

fn some_drive(s: &mut Src, m: &Model) -> String {
    match s.weighted(&[6, 3, 1, 1]) {
        0 => {
            let keys: Vec<&String> = m.drives.keys().collect();
            let k = *s.pick(&keys);
            if s.chance(1, 2) { k.to_lowercase() } else { k.clone() }
        }
        1 => s.pick(DRIVES).to_string(),
        2 => {
            let mut d = s.pick(DRIVES).to_string();
            d.push_str(s.pick(&[":", "/", ".", "\\", ":/"]));
            d
        }
        _ => some_junk(s),
    }
}

/// Generates a path, most likely to a file that exists if `want` is set.
fn some_path(s: &mut Src, m: &mut Model, file: bool) -> String {
    if s.chance(1, 12) {
        return some_junk(s);
    }
    let drive = if s.chance(1, 2) {
        let keys: Vec<&String> = m.drives.keys().collect();
        let k = s.pick(&keys).to_string();
        let k = if s.chance(1, 2) { k.to_lowercase() } else { k };
        Some(if s.chance(1, 15) { some_drive(s, m) } else { k })
    } else {
        None
    };
    let with_name = if file { !s.chance(1, 10) } else { s.chance(1, 10) };
    let mut path = if s.chance(1, 2) { "/".to_owned() } else { String::new() };
    if with_name {
        let key = drive.clone().map(|d| d.to_uppercase()).unwrap_or(m.current.clone());
        let existing: Vec<String> = match m.drives.get(&key) {
            Some(d) => m.files(&d.kind).into_keys().collect(),
            None => vec![],
        };
        if !existing.is_empty() && s.chance(2, 3) {
            path += s.pick(&existing).as_str();
        } else {
            path += s.pick(NAMES);
        }
    }
    let mut p = match drive {
        Some(d) => format!("{}:{}", d, path),
        None => path,
    };
    if s.chance(1, 15) {
        let at = s.idx(p.chars().count() + 1);
        let at = p.char_indices().nth(at).map(|(i, _)| i).unwrap_or(p.len());
        p.insert_str(at, s.pick(&["/", ".", ":", "\\", "..", "/.."]));
    }
    p
}

fn some_uri(s: &mut Src, dir: bool) -> String {
    if dir && s.chance(1, 2) {
        return s.pick(&["dir://p", "DIR://q", "dir://p/q"]).to_string();
    }
    s.pick(&[
        "memory://", "rec://t1", "rec://t2", "rec://ro", "rec://quota", "REC://t1", "Memory://",
        "rec://", "rec://fail", "rec://a://b", "rec:///t1", "memory://x", "://x", "rec:/x", "",
        "nope://x", "Nope://", "rec", " rec://t1",
    ])
    .to_string()
}

struct Sys {
    machine: Machine,
    con: Rc<RefCell<Con>>,
    storage: Rc<RefCell<Storage>>,
    shared: Shared,
}

impl Sys {
    fn cmd(&mut self, code: &str) -> Res<Vec<String>> {
        self.con.borrow_mut().take();
        self.machine.compile(&mut code.as_bytes()).map_err(|e| format!("compile: {}", e))?;
        let r = block_on(self.machine.exec());
        let out = self.con.borrow_mut().take();
        match r {
            Ok(None) => Ok(out),
            Ok(n) => Err(format!("unexpected exit {:?}", n)),
            Err(e) => Err(e.to_string()),
        }
    }
}

fn show<T: std::fmt::Debug>(r: &Res<T>) -> String {
    format!("{:?}", r)
}

/// Compares the result of a command with that of the model, whose errors happen at 1:1.
fn same_cmd(got: Res<Vec<String>>, want: Res<Vec<String>>) -> CaseResult {
    let got = got.map(|lines| {
        lines
            .into_iter()
            .map(|l| l.strip_prefix("print ").unwrap_or(&l).to_owned())
            .collect::<Vec<_>>()
    });
    let want = want.map_err(|e| format!("1:1: {}", e));
    let same = match (&got, &want) {
        (Ok(g), Ok(w)) => {
            // The dates of actual files are not known.
            g.len() == w.len()
                && g.iter().zip(w).all(|(g, w)| match w.find("????-??-?? ??:??") {
                    Some(4) if g.len() == w.len() => {
                        g[..4] == w[..4] && g[20..] == w[20..] && g[4..20].len() == 16
                    }
                    _ => g == w,
                })
        }
        (g, w) => g == w,
    };
    if same { Ok(()) } else { Err(format!("got {:?} instead of {:?}", got, want)) }
}

fn same<T: std::fmt::Debug>(got: io::Result<T>, want: Res<T>) -> CaseResult {
    let got = got.map_err(|e| e.to_string());
    if show(&got) == show(&want) {
        Ok(())
    } else {
        Err(format!("got {} instead of {}", show(&got), show(&want)))
    }
}

/// Compares the whole state of the storage with the model.
fn same_state(sys: &Sys, m: &mut Model) -> CaseResult {
    let st = sys.storage.borrow();
    let mounted: Vec<(&str, &str)> = st.mounted().into_iter().collect();
    let want: Vec<(&str, &str)> =
        m.drives.iter().map(|(k, d)| (k.as_str(), d.uri.as_str())).collect();
    if mounted != want {
        return Err(format!("mounted drives are {:?} instead of {:?}", mounted, want));
    }
    if st.cwd() != format!("{}:/", m.current) {
        return Err(format!("current location is {} instead of {}", st.cwd(), m.current));
    }
    if let Some(b) = sys.shared.borrow().bad.first() {
        return Err(b.clone());
    }
    if sys.shared.borrow().files != m.targets {
        return Err(format!("targets hold {:?} instead of {:?}", sys.shared.borrow().files, m.targets));
    }
    let kinds: Vec<(String, Kind)> =
        m.drives.iter().map(|(k, d)| (k.clone(), d.kind.clone())).collect();
    for (key, kind) in kinds {
        let want = m.files(&kind);
        let files = block_on(st.enumerate(&format!("{}:", key)))
            .map_err(|e| format!("cannot list {}: {}", key, e))?;
        let sizes: Vec<(String, u64)> =
            files.dirents().iter().map(|(k, v)| (k.clone(), v.length)).collect();
        let want_sizes: Vec<(String, u64)> =
            want.iter().map(|(k, v)| (k.clone(), v.len() as u64)).collect();
        if sizes != want_sizes {
            return Err(format!("drive {} holds {:?} instead of {:?}", key, sizes, want_sizes));
        }
        for (name, content) in want {
            let got = block_on(st.get(&format!("{}:/{}", key, name)));
            same(got, Ok(content)).map_err(|e| format!("{}:/{}: {}", key, name, e))?;
        }
    }
    Ok(())
}

fn storage(s: &mut Src, case: &mut Case) -> CaseResult {
    let dir = s.chance(1, 60);
    let scratch = dir.then(Scratch::new);
    let shared: Shared = Shared::default();
    let mut st = Storage::default();
    st.register_scheme("rec", Box::new(RecFactory(shared.clone())));
    if let Some(d) = &scratch {
        let f = FencedFactory { dir: d.0.clone(), shared: shared.clone() };
        st.register_scheme("dir", Box::new(f));
    }
    let storage = Rc::from(RefCell::from(st));
    let (b, con, _, _, _) = builder();
    let machine = b.make_interactive().with_storage(storage.clone()).build();
    let narrow = s.chance(1, 5);
    if narrow {
        con.borrow_mut().size = CharsXY::new(*s.pick(&[49, 30]), 25);
    }
    let mut sys = Sys { machine, con, storage, shared };
    let mut m = Model {
        drives: BTreeMap::from([(
            "MEMORY".to_owned(),
            MDrive { uri: "memory://".to_owned(), kind: Kind::Memory(BTreeMap::new()) },
        )]),
        current: "MEMORY".to_owned(),
        targets: BTreeMap::new(),
        dirs: BTreeMap::new(),
        scratch: scratch.as_ref().map(|d| d.0.display().to_string()).unwrap_or_default(),
    };
    let mut text = String::new();
    let mut ok = 0;
    for _ in 0..s.range(1, 25) {
        let kind = s.weighted(&[4, 5, 4, 4, 2, 3, 3, 2, 1, 1, 3, 3, 3, 2, 2, 2]);
        let mut run = |sys: &mut Sys, label: &'static str, code: String, want: Res<Vec<String>>| {
            text += &code;
            text.push('\n');
            case.set_text(text.clone());
            if want.is_ok() {
                ok += 1;
                if !label.is_empty() {
                    case.label(label);
                }
            }
            let r = sys.cmd(&code);
            same_cmd(r, want).map_err(|e| format!("{}: {}", code, e))
        };
        match kind {
            0 => {
                let p = some_path(s, &mut m, true);
                let content: Vec<u8> = (0..s.range(0, 10)).map(|_| s.below(256) as u8).collect();
                text += &format!("put {:?} {:?}\n", p, content);
                case.set_text(text.clone());
                let w = m.put(&p, &content);
                let r = block_on(sys.storage.borrow_mut().put(&p, &content));
                same(r, w).map_err(|e| format!("put {:?}: {}", p, e))?;
            }
            1 => {
                // Mounting a missing drive is the most interesting.
                let uri = some_uri(s, dir);
                let name = if s.chance(2, 3) {
                    s.pick(DRIVES).to_string()
                } else {
                    some_drive(s, &m)
                };
                let uri = if uri.to_lowercase().starts_with("dir") && !dir {
                    "nope://".to_owned()
                } else {
                    uri
                };
                let created = sys.shared.borrow().created.len();
                let w = m.mount(&uri, &name);
                let failed = w.as_ref().err().is_some_and(|e| e != "Cannot open target");
                run(&mut sys, "", format!("MOUNT {} AS {}", quote(&uri), quote(&name)), w.map(|_| vec![]))?;
                if failed && sys.shared.borrow().created.len() != created {
                    return Err(format!("failed mount of {} opened its target", uri));
                }
            }
            2 => {
                let p = some_path(s, &mut m, false);
                let w = m.cd(&p);
                run(&mut sys, "", format!("CD {}", quote(&p)), w.map(|_| vec![]))?;
            }
            3 => {
                let p = some_path(s, &mut m, true);
                let folder = s.chance(1, 2);
                let q = some_path(s, &mut m, !folder);
                let w = m.copy(&p, &q);
                run(&mut sys, "copied", format!("COPY {}, {}", quote(&p), quote(&q)), w.map(|_| vec![]))?;
            }
            4 => {
                let p = some_path(s, &mut m, true);
                let w = m.delete(&p);
                run(&mut sys, "deleted", format!("KILL {}", quote(&p)), w.map(|_| vec![]))?;
            }
            5 => {
                let p = some_path(s, &mut m, false);
                let w = m.dir(&p, narrow);
                run(&mut sys, "", format!("DIR {}", quote(&p)), w)?;
            }
            6 => {
                let n = some_drive(s, &m);
                let w = m.unmount(&n);
                run(&mut sys, "unmounted", format!("UNMOUNT {}", quote(&n)), w.map(|_| vec![]))?;
            }
            7 => {
                let w = m.pwd();
                run(&mut sys, "", "PWD".to_owned(), Ok(w))?;
            }
            8 => {
                let w = m.drives_text();
                run(&mut sys, "", "MOUNT".to_owned(), Ok(w))?;
            }
            9 => {
                let w = m.dir("", narrow);
                run(&mut sys, "", "DIR".to_owned(), w)?;
            }
            10 => {
                let p = some_path(s, &mut m, true);
                text += &format!("get {:?}\n", p);
                case.set_text(text.clone());
                let w = m.get(&p);
                let got = block_on(sys.storage.borrow().get(&p));
                if got.is_ok() {
                    case.label("read");
                    // The canonical name refers to the same file.
                    let c = sys.storage.borrow().make_canonical(&p).map_err(|e| e.to_string())?;
                    same(block_on(sys.storage.borrow().get(&c)), w.clone())
                        .map_err(|e| format!("get {:?} via {:?}: {}", p, c, e))?;
                }
                same(got, w).map_err(|e| format!("get {:?}: {}", p, e))?;
            }
            11 => {
                let file = s.chance(1, 2);
                let p = some_path(s, &mut m, file);
                text += &format!("canonical {:?}\n", p);
                case.set_text(text.clone());
                let c = sys.storage.borrow().make_canonical(&p);
                if let Ok(c) = &c {
                    let again = sys.storage.borrow().make_canonical(c).map_err(|e| e.to_string());
                    if again.as_ref() != Ok(c) {
                        return Err(format!("canonical form {:?} is not so: {:?}", c, again));
                    }
                }
                same(c, m.canonical(&p)).map_err(|e| format!("canonical {:?}: {}", p, e))?;
            }
            12 => {
                let file = !s.chance(1, 4);
                let p = some_path(s, &mut m, file);
                text += &format!("canonical with extension {:?}\n", p);
                case.set_text(text.clone());
                let c = sys.storage.borrow().make_canonical_with_extension(&p, "bas");
                same(c, m.canonical_ext(&p, "bas")).map_err(|e| format!("extension {:?}: {}", p, e))?;
            }
            13 | 14 => {
                let p = some_path(s, &mut m, true);
                let who = |s: &mut Src| -> Vec<String> {
                    (0..s.range(0, 3)).map(|_| s.pick(&["u1", "U1", "u2", "u3"]).to_string()).collect()
                };
                if kind == 13 {
                    let (add, remove) = (who(s), who(s));
                    text += &format!("update_acls {:?} {:?} {:?}\n", p, add, remove);
                    case.set_text(text.clone());
                    let w = m.acls(&p, Some((&add, &remove))).map(|_| ());
                    let r = block_on(sys.storage.borrow_mut().update_acls(
                        &p,
                        &FileAcls::default().with_readers(add),
                        &FileAcls::default().with_readers(remove),
                    ));
                    same(r, w).map_err(|e| format!("update_acls {:?}: {}", p, e))?;
                } else {
                    text += &format!("get_acls {:?}\n", p);
                    case.set_text(text.clone());
                    let w = m.acls(&p, None);
                    if w.as_ref().is_ok_and(|r| !r.is_empty()) {
                        case.label("had readers");
                    }
                    let r = block_on(sys.storage.borrow().get_acls(&p)).map(|a| {
                        let mut v = a.readers().to_vec();
                        v.sort();
                        v
                    });
                    same(r, w).map_err(|e| format!("get_acls {:?}: {}", p, e))?;
                }
            }
            _ => {
                let file = s.chance(1, 2);
                let p = some_path(s, &mut m, file);
                text += &format!("system_path {:?}\n", p);
                case.set_text(text.clone());
                let w = m.system_path(&p);
                let r = sys.storage.borrow().system_path(&p);
                same(r.map(|p| p.map(|p| p.display().to_string())), w)
                    .map_err(|e| format!("system_path {:?}: {}", p, e))?;
            }
        }
        same_state(&sys, &mut m).map_err(|e| {
            format!("after {}: {}", text.lines().last().unwrap_or(""), e)
        })?;
        if let Some(d) = &scratch {
            // Files on disk are those of the model and nothing else.
            let mut found: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            for t in ["", "p", "q", "p/q"] {
                if let Ok(it) = std::fs::read_dir(d.0.join(t)) {
                    for e in it {
                        let e = e.unwrap();
                        let n = format!("{}/{}", t, e.file_name().to_string_lossy());
                        if e.file_type().unwrap().is_file() {
                            found.insert(n, std::fs::read(e.path()).unwrap());
                        }
                    }
                }
                if let Some(f) = m.dirs.get(t) {
                    want.extend(f.iter().map(|(k, v)| (format!("{}/{}", t, k), v.clone())));
                }
            }
            if found != want {
                return Err(format!("files on disk are {:?} instead of {:?}", found, want));
            }
            case.label("real directory");
        }
    }
    if m.drives.len() > 2 {
        case.label("three or more drives");
    }
    case.nontrivial = ok >= 2;
    Ok(())
}

use endbasic_std::console::CharsXY;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "S06",
        rule: "at least two commands succeed",
        quick: 500000,
        thorough: 3000000,
        run: storage,
        assumptions: &["drives other than the in-memory and directory ones are fakes"],
    }]
}
