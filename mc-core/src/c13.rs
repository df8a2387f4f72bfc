//! Password files and password checks: the file format against an independent
//! parser, dump/load round trips over hostile readers and writers, every
//! candidate password against every credential, and the command line that
//! edits the file.
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::num::NonZeroU32;
use std::process::{Command, Stdio};
use std::sync::Arc;

use akasa_core::protocols::mqtt::check_password;
use akasa_core::{dump_passwords, hash_password, load_passwords, AuthPassword, HashAlgorithm};
use dashmap::DashMap;
use mc_engine::{Check, Chooser};
use serde_json::json;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Cred {
    alg: u8,
    iters: u32,
    salt: Vec<u8>,
    hash: Vec<u8>,
}
type Map = BTreeMap<String, Cred>;

fn alg_of(c: &Cred) -> HashAlgorithm {
    let iterations = NonZeroU32::new(c.iters.max(1)).unwrap();
    match c.alg {
        0 => HashAlgorithm::Sha256,
        1 => HashAlgorithm::Sha512,
        2 => HashAlgorithm::Sha256Pkbdf2 { iterations },
        _ => HashAlgorithm::Sha512Pkbdf2 { iterations },
    }
}
fn real(c: &Cred) -> AuthPassword {
    AuthPassword { hash_algorithm: alg_of(c), hashed_password: c.hash.clone(), salt: c.salt.clone() }
}
fn abstracted(p: &AuthPassword) -> Cred {
    let (alg, iters) = match p.hash_algorithm {
        HashAlgorithm::Sha256 => (0, 0),
        HashAlgorithm::Sha512 => (1, 0),
        HashAlgorithm::Sha256Pkbdf2 { iterations } => (2, iterations.get()),
        HashAlgorithm::Sha512Pkbdf2 { iterations } => (3, iterations.get()),
    };
    Cred { alg, iters, salt: p.salt.clone(), hash: p.hashed_password.clone() }
}
fn abstract_map(m: &DashMap<String, AuthPassword>) -> Map {
    m.iter().map(|e| (e.key().clone(), abstracted(e.value()))).collect()
}

/// Independent hash of a password.
fn ref_hash(alg: u8, iters: u32, salt: &[u8], password: &[u8]) -> Vec<u8> {
    use ring::{digest, pbkdf2};
    let it = NonZeroU32::new(iters.max(1)).unwrap();
    let salted = [password, salt].concat();
    match alg {
        0 => digest::digest(&digest::SHA256, &salted).as_ref().to_vec(),
        1 => digest::digest(&digest::SHA512, &salted).as_ref().to_vec(),
        2 => {
            let mut o = vec![0; 32];
            pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA256, it, salt, password, &mut o);
            o
        }
        _ => {
            let mut o = vec![0; 64];
            pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA512, it, salt, password, &mut o);
            o
        }
    }
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(data: &[u8]) -> String {
    let mut s = String::new();
    for ch in data.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..=ch.len() {
            s.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        acc = acc << 6 | B64.iter().position(|b| *b == c)? as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    // no dangling character, no stray bits
    (bits < 6 && acc == 0).then_some(out)
}

/// Independent reading of a password file.
fn ref_load(text: &[u8]) -> Option<Map> {
    let text = std::str::from_utf8(text).ok()?;
    let mut m = Map::new();
    for line in text.split('\n') {
        let line = line.trim();
        if line.is_empty() {
            continue;
        }
        let colon = line.rfind(':')?;
        let f: Vec<&str> = line[colon + 1..].split(',').collect();
        let alg = ["sha256", "sha512", "sha256-pkbdf2", "sha512-pkbdf2"].iter().position(|a| *a == f[0])? as u8;
        let (iters, rest) = if alg >= 2 {
            let t = f.get(1)?.strip_prefix('+').unwrap_or(f[1]);
            if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            let n: u64 = t.parse().ok()?;
            if n == 0 || n > u32::MAX as u64 {
                return None;
            }
            (n as u32, &f[2..])
        } else {
            (0, &f[1..])
        };
        if rest.len() != 2 {
            return None;
        }
        let salt = unb64(rest[0])?;
        let hash = unb64(rest[1])?;
        if salt.len() < 12 {
            return None;
        }
        m.insert(line[..colon].to_string(), Cred { alg, iters, salt, hash });
    }
    Some(m)
}

/// A reader or writer whose every call is a choice of the explorer.
struct Hostile<'a> {
    ch: std::cell::RefCell<&'a mut Chooser>,
    data: Vec<u8>,
    pos: usize,
    failed: std::cell::Cell<bool>,
}
impl Read for Hostile<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = &self.data[self.pos..];
        let n = left.len().min(buf.len());
        let k = self.ch.borrow_mut().choose(5);
        self.ch.borrow_mut().note(format!("read of {n}: {}", ["all", "1 byte", "half", "interrupted", "error"][k]));
        let n = match k {
            0 => n,
            1 => n.min(1),
            2 => n.div_ceil(2),
            3 => return Err(io::ErrorKind::Interrupted.into()),
            _ => {
                self.failed.set(true);
                return Err(io::ErrorKind::Other.into());
            }
        };
        buf[..n].copy_from_slice(&left[..n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Hostile<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.ch.borrow_mut().choose(6);
        self.ch.borrow_mut().note(format!("write of {}: {}", buf.len(), ["all", "1 byte", "half", "interrupted", "error", "zero"][k]));
        let n = match k {
            0 => buf.len(),
            1 => buf.len().min(1),
            2 => buf.len().div_ceil(2),
            3 => return Err(io::ErrorKind::Interrupted.into()),
            4 => {
                self.failed.set(true);
                return Err(io::ErrorKind::Other.into());
            }
            _ if buf.is_empty() => 0,
            _ => {
                self.failed.set(true);
                0
            }
        };
        self.data.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.ch.borrow_mut().choose(2) == 1 {
            self.failed.set(true);
            return Err(io::ErrorKind::Other.into());
        }
        Ok(())
    }
}

fn creds() -> Vec<(String, Cred)> {
    let mut v = vec![];
    let names = ["u", "a:b", "x,y", "é☃", "", "#c", "u v", ":", "sha256,", "U"];
    for (i, n) in names.iter().enumerate() {
        let alg = (i % 4) as u8;
        let iters = if alg >= 2 { [1, 3, u32::MAX][i / 4 % 3] } else { 0 };
        let salt: Vec<u8> = (0..12 + i % 4).map(|b| (b * 37 + i * 11) as u8 ^ 0xff).collect();
        let hash = if iters == u32::MAX { vec![0xab; 64] } else { ref_hash(alg, iters, &salt, b"pw") };
        v.push((n.to_string(), Cred { alg, iters, salt, hash }));
    }
    v
}

fn compare(text: &[u8], got: io::Result<DashMap<String, AuthPassword>>) -> Result<(), String> {
    let want = ref_load(text);
    match (&want, &got) {
        (None, Err(_)) => Ok(()),
        (Some(w), Ok(g)) if *w == abstract_map(g) => Ok(()),
        _ => Err(format!("loaded {:?}, expected {:?} from {:?}", got.as_ref().map(abstract_map), want, String::from_utf8_lossy(text))),
    }
}

pub fn run(c: &Arc<Check>) {
    grammar(c);
    round_trips(c);
    checks(c);
    cli(c);
}

fn grammar(c: &Arc<Check>) {
    let salt12 = b64(&[7u8; 12]);
    let salt11 = b64(&[7u8; 11]);
    let salt13 = b64(&[0xfeu8; 13]);
    let users: Vec<&str> = vec!["u", "", "a:b", "u,v", " u", "u ", "\u{e9}", "sha256", "#u"];
    let algs = ["sha256", "sha512", "sha256-pkbdf2", "sha512-pkbdf2", "SHA256", "md5", "", "sha256-pbkdf2", " sha256"];
    let iters: Vec<Option<&str>> = vec![None, Some("1"), Some("128"), Some("0"), Some("4294967295"), Some("4294967296"), Some("-1"), Some("+5"), Some(""), Some("1 "), Some("x"), Some("007")];
    let salts = [salt12.clone(), salt11, salt13, String::new(), format!("{salt12}="), format!("{}*", &salt12[..15]), format!("{} ", salt12), format!("{}-_", &salt12[..14])];
    let hashes = [b64(&[9u8; 32]), b64(&[1u8; 64]), String::new(), "AB".into(), "AA".into(), "A".into(), "AA==".into(), "A*".into()];
    let tails = ["", ",", ",x", " ", "\t", "\r", "\u{a0}"];
    let dims = [users.len(), algs.len(), iters.len(), salts.len(), hashes.len(), tails.len()];
    let n: usize = dims.iter().product();
    let line = |mut i: usize| {
        let mut k = [0; 6];
        for (j, d) in dims.iter().enumerate() {
            k[j] = i % d;
            i /= d;
        }
        let it = iters[k[2]].map(|s| format!(",{s}")).unwrap_or_default();
        format!("{}:{}{},{},{}{}", users[k[0]], algs[k[1]], it, salts[k[3]], hashes[k[4]], tails[k[5]])
    };
    c.explore_product("one line", "user x algorithm x iterations x salt x hash x tail", n, line, |i| {
        let l = line(i);
        let r = load_passwords(l.as_bytes());
        c.outcome(&r.is_ok());
        compare(l.as_bytes(), r)
    });
    // every file of up to 4 lines over lines that interact
    let good = |u: &str, a: &str, b: u8| format!("{u}:{a},{salt12},{}", b64(&[b; 32]));
    let lines: Vec<Vec<u8>> = vec![
        good("u", "sha256", 1).into_bytes(),
        good("u", "sha512", 2).into_bytes(),
        good("v", "sha256-pkbdf2,9", 3).into_bytes(),
        format!("\t {} ", good("w", "sha256", 4)).into_bytes(),
        vec![],
        b"   ".to_vec(),
        b"no colon".to_vec(),
        b"u:sha256".to_vec(),
        [good("u", "sha256", 1).as_bytes(), b"\xff"].concat(),
        b":".to_vec(),
    ];
    let seps: [&[u8]; 3] = [b"\n", b"\r\n", b"\n\n"];
    let depth = c.pick(4, 5);
    let mut total = 0;
    for d in 1..=depth {
        total += lines.len().pow(d as u32) * seps.len() * 2;
    }
    let build = |mut i: usize| {
        let mut d = 1;
        loop {
            let n = lines.len().pow(d as u32) * seps.len() * 2;
            if i < n {
                break;
            }
            i -= n;
            d += 1;
        }
        let sep = seps[i % 3];
        i /= 3;
        let end = i % 2 == 1;
        i /= 2;
        let mut t = vec![];
        for j in 0..d {
            t.extend(&lines[i % lines.len()]);
            i /= lines.len();
            if j + 1 < d || end {
                t.extend(sep);
            }
        }
        t
    };
    c.explore_product("files", "every file of up to 4 (5) lines over 10, 3 line ends, with and without a final one", total, |i| format!("{:?}", String::from_utf8_lossy(&build(i))), |i| {
        let t = build(i);
        compare(&t, load_passwords(&t[..]))
    });
}

fn round_trips(c: &Arc<Check>) {
    let all = creds();
    let subsets = 1usize << all.len();
    c.explore_product("dump then load", "every subset of 10 credentials", subsets, |i| format!("subset {i:#b}"), |i| {
        let want: Map = all.iter().enumerate().filter(|(j, _)| i >> j & 1 == 1).map(|(_, x)| x.clone()).collect();
        let m = DashMap::new();
        for (n, k) in &want {
            m.insert(n.clone(), real(k));
        }
        let mut out = vec![];
        dump_passwords(&mut out, &m).map_err(|e| format!("dump failed: {e}"))?;
        if ref_load(&out).as_ref() != Some(&want) {
            return Err(format!("dumped file does not say what was stored: {:?}", String::from_utf8_lossy(&out)));
        }
        compare(&out, load_passwords(&out[..]))?;
        // dumping what was loaded changes nothing
        let again = load_passwords(&out[..]).unwrap();
        let mut out2 = vec![];
        dump_passwords(&mut out2, &again).map_err(|e| format!("dump failed: {e}"))?;
        if ref_load(&out2).as_ref() != Some(&want) {
            return Err("a second dump differs".into());
        }
        Ok(())
    });
    // hostile writers and readers; a big file exceeds the internal buffers
    for (name, count) in [("small", 2usize), ("big", 60)] {
        let mut m = Map::new();
        for i in 0..count {
            let (_, k) = &all[i % all.len()];
            m.insert(format!("user{i}"), k.clone());
        }
        // DashMap iterates in a seeded order: dump through a fixed text
        let text: String = m.iter().map(|(n, k)| {
            let a = ["sha256", "sha512", "sha256-pkbdf2", "sha512-pkbdf2"][k.alg as usize];
            let it = if k.alg >= 2 { format!(",{}", k.iters) } else { String::new() };
            format!("{n}:{a}{it},{},{}\n", b64(&k.salt), b64(&k.hash))
        }).collect();
        let bound = if count > 10 { c.pick(2, 3) } else { c.pick(3, 5) };
        c.explore_choices(&format!("load, {name} file"), bound, |ch| {
            let mut h = Hostile { ch: ch.into(), data: text.clone().into_bytes(), pos: 0, failed: false.into() };
            let r = load_passwords(&mut h);
            match (&r, h.failed.get()) {
                (Err(_), true) => Ok(()),
                (Ok(g), false) if abstract_map(g) == m => Ok(()),
                _ => Err(format!("reader failed: {}, loaded {} of {}", h.failed.get(), r.as_ref().map(|m| m.len() as i64).unwrap_or(-1), m.len())),
            }
        });
        let one = DashMap::with_shard_amount(2);
        for (n, k) in &m {
            one.insert(n.clone(), real(k));
        }
        c.explore_choices(&format!("dump, {name} file"), bound, |ch| {
            let mut h = Hostile { ch: ch.into(), data: vec![], pos: 0, failed: false.into() };
            let r = dump_passwords(&mut h, &one);
            match (&r, h.failed.get()) {
                (Err(_), true) => Ok(()),
                (Ok(()), false) if ref_load(&h.data).as_ref() == Some(&m) => Ok(()),
                _ => Err(format!("writer failed: {}, result {r:?}, file {:?}", h.failed.get(), String::from_utf8_lossy(&h.data))),
            }
        });
    }
}

fn checks(c: &Arc<Check>) {
    let mut pws: Vec<Vec<u8>> = vec![vec![]];
    let sym = [b'a', b'b', 0, 0xff];
    for d in 1..=2 {
        for i in 0..sym.len().pow(d) {
            pws.push((0..d).map(|j| sym[i / sym.len().pow(j) % sym.len()]).collect());
        }
    }
    pws.push(b"a ".to_vec());
    pws.push(b"A".to_vec());
    pws.push(vec![b'a'; 64]);
    pws.push(vec![b'a'; 65]);
    pws.push(vec![b'a'; 128]);
    pws.push(vec![b'a'; 129]);
    let salts: Vec<Vec<u8>> = vec![vec![0; 12], b"abababababab".to_vec(), (0..12).collect(), (0..30).collect()];
    let kinds: Vec<(u8, u32)> = vec![(0, 0), (1, 0), (2, 1), (2, 5), (3, 1), (3, 5)];
    let n = kinds.len() * salts.len() * pws.len();
    c.explore_product("check", "algorithm x salt x password, each against every candidate", n, |i| format!("index {i}"), |i| {
        let (alg, iters) = kinds[i % kinds.len()];
        let salt = &salts[i / kinds.len() % salts.len()];
        let pw = &pws[i / kinds.len() / salts.len()];
        let k = Cred { alg, iters, salt: salt.clone(), hash: ref_hash(alg, iters, salt, pw) };
        let h = hash_password(alg_of(&k), salt, pw);
        if h != k.hash {
            return Err(format!("hash of {pw:?} with {alg}/{iters} is {h:?}"));
        }
        let m = DashMap::new();
        m.insert("u".to_string(), real(&k));
        // a second user with another password
        let other = b"other".to_vec();
        m.insert("v".to_string(), AuthPassword { hash_algorithm: alg_of(&k), hashed_password: ref_hash(alg, iters, salt, &other), salt: salt.clone() });
        for cand in pws.iter().chain([&other, &k.hash, salt]) {
            c.transition();
            // PBKDF2 itself identifies keys that differ in trailing NULs, and
            // a key above the block size with its digest
            let same = |x: &[u8]| ref_hash(alg, iters, salt, cand) == ref_hash(alg, iters, salt, x);
            if alg < 2 && same(pw) != (cand == pw) {
                return Err("ENGINE: reference".into());
            }
            if check_password(&m, "u", cand) != same(pw) {
                return Err(format!("password {pw:?} ({alg}/{iters}): candidate {cand:?} accepted = {}", !same(pw)));
            }
            if check_password(&m, "v", cand) != same(&other) {
                return Err(format!("candidate {cand:?} wrongly judged for v"));
            }
            for nobody in ["", "U", "u ", "uu"] {
                if check_password(&m, nobody, cand) {
                    return Err(format!("unknown user {nobody:?} accepted"));
                }
            }
        }
        // another credential of the same password must not depend on anything else
        for (a2, i2) in &kinds {
            let k2 = Cred { alg: *a2, iters: *i2, salt: salt.clone(), hash: k.hash.clone() };
            m.insert("u".to_string(), real(&k2));
            let want = ref_hash(*a2, *i2, salt, pw) == k.hash;
            // PBKDF2 output of the other digest size shares no prefix
            if check_password(&m, "u", pw) != want {
                return Err(format!("hash made with {alg}/{iters} judged {} under {a2}/{i2}", !want));
            }
        }
        m.remove("u");
        if check_password(&m, "u", pw) {
            return Err("removed user accepted".into());
        }
        // a stored hash cut short or followed by more is not the hash
        for len in 0..=k.hash.len() + 1 {
            let mut k3 = k.clone();
            k3.hash.resize(len, 0);
            m.insert("u".to_string(), real(&k3));
            c.transition();
            if check_password(&m, "u", pw) != (k3.hash == k.hash) {
                return Err(format!("password {pw:?} ({alg}/{iters}) judged wrongly against a stored hash of {len} bytes"));
            }
        }
        // every single-bit error in the stored hash or salt rejects
        for bit in (0..k.hash.len() * 8).step_by(c.pick(5, 1)) {
            let mut k3 = k.clone();
            k3.hash[bit / 8] ^= 1 << (bit % 8);
            m.insert("u".to_string(), real(&k3));
            if check_password(&m, "u", pw) {
                return Err(format!("accepted although bit {bit} of the hash differs"));
            }
        }
        Ok(())
    });
}

/// A sequence of command line calls on one file.
#[derive(Clone, Debug)]
enum Cmd {
    Insert { user: &'static str, pw: &'static str, alg: &'static str, iters: Option<u32>, create: bool, repeat: Option<&'static str> },
    Remove(&'static str),
    /// somebody appends a line by hand
    Append(&'static str),
}
fn show(c: &Cmd) -> String {
    format!("{c:?}")
}

fn cli(c: &Arc<Check>) {
    let exe = match std::env::var("AKASA_CLI") {
        Ok(e) => e,
        Err(_) => {
            c.fail("cli", "ENGINE: AKASA_CLI is not set".into(), json!({}));
            return;
        }
    };
    let ins = |user, pw, alg, iters, create| Cmd::Insert { user, pw, alg, iters, create, repeat: None };
    let a = vec![
        ins("u", "one", "sha256", None, true),
        ins("u", "two", "sha512-pkbdf2", None, false),
        ins("v:x", "one", "sha256-pkbdf2", Some(3), false),
        ins("v:x", "", "sha512", None, true),
        Cmd::Insert { user: "u", pw: "three", alg: "sha256", iters: None, create: true, repeat: Some("four") },
        Cmd::Remove("u"),
        Cmd::Remove("v:x"),
        Cmd::Append("broken line\n"),
        Cmd::Append("\n  \n"),
        ins("w", "w w", "sha512", None, false),
    ];
    let dir = std::env::temp_dir().join(format!("mc-c13-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    c.explore_tree("command line", &a, c.pick(4, 5), show, |ops, log| {
        let path = dir.join(format!("f{}", next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        let r = run_cli(c, &exe, &path, ops, log);
        let _ = std::fs::remove_file(&path);
        r.map(|_| None)
    });
    let _ = std::fs::remove_dir(&dir);
}

fn run_cli(c: &Check, exe: &str, path: &std::path::Path, ops: &[Cmd], log: bool) -> Result<(), (usize, String)> {
    // user -> (password, algorithm, iterations); None: no file
    let mut model: Option<BTreeMap<&str, (&str, &str, u32)>> = None;
    let mut broken = false;
    for (i, op) in ops.iter().enumerate() {
        let before = std::fs::read(path).ok();
        let mut cmd = Command::new(exe);
        cmd.env_clear().env("RUST_LOG", "off").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null());
        let mut input = String::new();
        let want_ok;
        match op {
            Cmd::Insert { user, pw, alg, iters, create, repeat } => {
                cmd.args(["insert-password", "--path", path.to_str().unwrap(), "--username", user, "--hash-algorithm", alg]);
                if *create {
                    cmd.arg("--create");
                }
                if let Some(n) = iters {
                    cmd.args(["--iterations", &n.to_string()]);
                }
                input = format!("{pw}\n{}\n", repeat.unwrap_or(pw));
                want_ok = repeat.is_none() && (*create || model.is_some() && !broken);
                if want_ok {
                    if *create {
                        model = Some(BTreeMap::new());
                        broken = false;
                    }
                    model.as_mut().unwrap().insert(user, (pw, alg, if alg.contains("pkbdf2") { iters.unwrap_or(128) } else { 0 }));
                }
            }
            Cmd::Remove(user) => {
                cmd.args(["remove-password", "--path", path.to_str().unwrap(), "--username", user]);
                want_ok = model.is_some() && !broken;
                if want_ok {
                    model.as_mut().unwrap().remove(user);
                }
            }
            Cmd::Append(l) => {
                if model.is_none() {
                    model = Some(BTreeMap::new());
                }
                broken |= !l.trim().is_empty();
                let mut t = before.clone().unwrap_or_default();
                t.extend(l.as_bytes());
                std::fs::write(path, t).unwrap();
                continue;
            }
        }
        let mut ch = cmd.spawn().map_err(|e| (i, format!("ENGINE: spawn {e}")))?;
        let _ = ch.stdin.take().unwrap().write_all(input.as_bytes());
        let st = ch.wait().map_err(|e| (i, format!("ENGINE: wait {e}")))?;
        let after = std::fs::read(path).ok();
        if log {
            println!("  {op:?} -> {st}\n{}", String::from_utf8_lossy(after.as_deref().unwrap_or(b"(no file)")));
        }
        if st.success() != want_ok {
            return Err((i, format!("exit {st}, expected success = {want_ok}")));
        }
        if !want_ok && after != before {
            return Err((i, "a command that failed changed the file".into()));
        }
        if broken {
            continue;
        }
        let got = match &after {
            None if model.is_none() => continue,
            None => return Err((i, "the file is gone".into())),
            Some(t) => ref_load(t).ok_or((i, format!("not a password file: {:?}", String::from_utf8_lossy(t))))?,
        };
        let m = model.as_ref().ok_or((i, "a file was created".to_string()))?;
        if got.keys().map(|s| s.as_str()).collect::<Vec<_>>() != m.keys().copied().collect::<Vec<_>>() {
            return Err((i, format!("users {:?}, expected {:?}", got.keys(), m.keys())));
        }
        for (u, (pw, alg, iters)) in m {
            let k = &got[*u];
            let names = ["sha256", "sha512", "sha256-pkbdf2", "sha512-pkbdf2"];
            if names[k.alg as usize] != *alg || k.iters != *iters || k.hash != ref_hash(k.alg, k.iters, &k.salt, pw.as_bytes()) {
                return Err((i, format!("entry of {u} does not hold its password: {k:?}")));
            }
        }
        c.state(&format!("{m:?}"));
        // and the broker agrees
        let loaded = load_passwords(&after.unwrap()[..]).map_err(|e| (i, format!("not loadable: {e}")))?;
        for u in ["u", "v:x", "w"] {
            for pw in ["one", "two", "three", "", "w w", "four"] {
                if check_password(&loaded, u, pw.as_bytes()) != m.get(u).is_some_and(|x| x.0 == pw) {
                    return Err((i, format!("password {pw:?} of {u} wrongly judged")));
                }
            }
        }
    }
    Ok(())
}
