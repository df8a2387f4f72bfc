//! C15: the SCRAM server authenticates exactly the exchanges whose final
//! message proves knowledge of the stored credential in *this* exchange.
use crate::protocols::scram::server::ScramServer;
use crate::protocols::scram::{AuthenticationStatus as S, hash_password};
use crate::refscram::*;
use std::sync::Arc;
use mc_engine::{Check, Outcome};
use std::num::NonZeroU32;

fn rng(n: usize) -> ScriptRng {
    let s: Vec<u8> = (0..29).map(|i| (i * 53 + n * 101 + 7) as u8).collect();
    ScriptRng::new(&s)
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    First(&'static str),
    ServerFirst(usize),
    Final(F),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Good,
    FlippedProof,
    OtherPassword,
    Stale,
    WrongNonce,
    ClientNonceOnly,
    WrongGs2,
    NoProof,
    EmptyProof,
    TruncatedProof,
    Garbage,
}

const CREDS: [(&str, &[u8], u16); 3] = [("pa55", b"salt-one", 1), ("word", b"salt-two", 2), ("", b"\0", 1)];

/// (gs2 header, authcid, authzid) of the valid first messages used below.
fn parse_first(m: &str) -> Option<(String, String, Option<String>, String)> {
    let (flag, rest) = m.split_once(',')?;
    if flag != "n" && flag != "y" {
        return None;
    }
    let (az, bare) = rest.split_once(',')?;
    let authzid = match az {
        "" => None,
        a => Some(unescape(a.strip_prefix("a=")?)?),
    };
    let mut it = bare.split(',');
    let name = unescape(it.next()?.strip_prefix("n=")?)?;
    let _nonce = it.next()?.strip_prefix("r=")?;
    Some((format!("{flag},{az},"), name, authzid, bare.to_string()))
}
fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('=') {
        out.push_str(&rest[..i]);
        match rest.get(i..i + 3) {
            Some("=2C") => out.push(','),
            Some("=3D") => out.push('='),
            _ => return None,
        }
        rest = &rest[i + 3..];
    }
    out.push_str(rest);
    Some(out)
}

fn make_final(f: F, ex: &Exchange, stale: &Option<String>, other: &Exchange) -> String {
    let np = format!("c={},r={}", b64(ex.gs2.as_bytes()), ex.nonce);
    match f {
        F::Good => ex.client_final(),
        F::FlippedProof => {
            let mut p = ex.proof();
            p[31] ^= 1;
            format!("{np},p={}", b64(&p))
        }
        F::OtherPassword => other.client_final(),
        F::Stale => stale.clone().unwrap_or_else(|| "c=biws,r=x,p=AAAA".into()),
        F::WrongNonce => {
            let n = format!("{}x", ex.nonce);
            let e2 = Exchange { nonce: n, gs2: ex.gs2.clone(), bare: ex.bare.clone(), server_first: ex.server_first.clone(), salted: ex.salted.clone() };
            e2.client_final()
        }
        F::ClientNonceOnly => {
            let n = CLIENT_NONCE.to_string();
            let e2 = Exchange { nonce: n, gs2: ex.gs2.clone(), bare: ex.bare.clone(), server_first: ex.server_first.clone(), salted: ex.salted.clone() };
            e2.client_final()
        }
        F::WrongGs2 => {
            let g = if ex.gs2 == "n,," { "n,a=user," } else { "n,," };
            let e2 = Exchange { nonce: ex.nonce.clone(), gs2: g.into(), bare: ex.bare.clone(), server_first: ex.server_first.clone(), salted: ex.salted.clone() };
            e2.client_final()
        }
        F::NoProof => np,
        F::EmptyProof => format!("{np},p="),
        F::TruncatedProof => format!("{np},p={}", b64(&ex.proof()[..30])),
        F::Garbage => "garbage".into(),
    }
}

enum M {
    New,
    Wp { gs2: String, authcid: String, authzid: Option<String>, bare: String },
    Wf { ex: Exchange, other: Exchange, authcid: String, authzid: Option<String> },
    Done,
}

fn run_seq(c: &Check, ops: &[Op]) -> Outcome {
    let mut s = ScramServer::new();
    let mut m = M::New;
    let mut stale: Option<String> = None;
    let mut nonces: Vec<String> = vec![];
    let mut obs: Vec<String> = vec![];
    for (step, op) in ops.iter().enumerate() {
        c.transition();
        match op {
            Op::First(text) => {
                let r = s.decode_client_first(text);
                let p = parse_first(text);
                let fresh = matches!(m, M::New);
                match (p, r) {
                    (None, Ok(())) => return Err(format!("step {step}: invalid client-first {text:?} accepted")),
                    (None, Err(_)) => obs.push("first-".into()),
                    (Some(_), Err(e)) => {
                        if fresh {
                            return Err(format!("step {step}: valid client-first {text:?} rejected: {e}"));
                        }
                        obs.push("first?".into());
                    }
                    (Some((gs2, authcid, authzid, bare)), Ok(())) => {
                        if let M::Wf { ex, .. } = &m {
                            stale = Some(ex.client_final());
                        }
                        m = M::Wp { gs2, authcid, authzid, bare };
                        obs.push("first+".into());
                    }
                }
            }
            Op::ServerFirst(cred) => {
                let (pw, salt, it) = CREDS[*cred];
                let hp = hash_password(pw, NonZeroU32::new(it as u32).unwrap(), salt);
                if hp[..] != salted(pw, salt, it as u32)[..] {
                    return Err("stored credential is not PBKDF2-HMAC-SHA-256 of the password".into());
                }
                let r = s.encode_server_first(hp.to_vec(), salt, it, &mut rng(step));
                match (std::mem::replace(&mut m, M::Done), r) {
                    (M::Wp { gs2, authcid, authzid, bare }, Ok(sf)) => {
                        let (nonce, sa, i) = server_first_parts(&sf).ok_or(format!("step {step}: malformed server-first {sf:?}"))?;
                        let cn = bare.split(',').nth(1).unwrap()[2..].to_string();
                        if !nonce.starts_with(&cn) {
                            return Err(format!("step {step}: server nonce {nonce:?} does not extend client nonce {cn:?}"));
                        }
                        let own = &nonce[cn.len()..];
                        if own.chars().count() < 16 || !own.chars().all(|c| ('!'..='~').contains(&c) && c != ',') {
                            return Err(format!("step {step}: bad server nonce part {own:?}"));
                        }
                        if nonces.iter().any(|n| n == own) {
                            return Err(format!("step {step}: server nonce part {own:?} reused"));
                        }
                        nonces.push(own.to_string());
                        if sa != salt || i != it as u32 {
                            return Err(format!("step {step}: server-first {sf:?} does not carry the stored salt/iterations"));
                        }
                        let o = CREDS[(*cred + 1) % CREDS.len()];
                        let ex = Exchange { gs2: gs2.clone(), bare: bare.clone(), server_first: sf.clone(), nonce: nonce.clone(), salted: salted(pw, salt, it as u32) };
                        let other = Exchange { gs2, bare, server_first: sf, nonce, salted: salted(o.0, salt, it as u32) };
                        m = M::Wf { ex, other, authcid, authzid };
                        obs.push("sf+".into());
                    }
                    (old, Err(_)) if !matches!(old, M::Wp { .. }) => {
                        m = old;
                        obs.push("sf-".into());
                    }
                    (M::Wp { .. }, Err(e)) => return Err(format!("step {step}: server-first refused: {e}")),
                    (_, Ok(_)) => return Err(format!("step {step}: server-first produced in a wrong state")),
                    (_, Err(_)) => unreachable!(),
                }
            }
            Op::Final(f) => {
                let dummy = Exchange { gs2: "n,,".into(), bare: format!("n=user,r={CLIENT_NONCE}"), server_first: "r=,s=,i=1".into(), nonce: CLIENT_NONCE.into(), salted: vec![0; 32] };
                let was_wf = matches!(m, M::Wf { .. });
                let (msg, good, authcid, authzid, want) = match &m {
                    M::Wf { ex, other, authcid, authzid } => {
                        (make_final(*f, ex, &stale, other), *f == F::Good, authcid.clone(), authzid.clone(), ex.server_final())
                    }
                    _ => (make_final(*f, &dummy, &stale, &dummy), false, String::new(), None, String::new()),
                };
                if let M::Wf { ex, .. } = &m {
                    if stale.is_none() || *f == F::Good {
                        stale = Some(ex.client_final());
                    }
                }
                let r = s.decode_client_final(&msg);
                match &r {
                    Ok((S::Authenticated, reply)) => {
                        if !good {
                            return Err(format!("step {step}: {f:?} final {msg:?} authenticated"));
                        }
                        if authzid.as_ref().is_some_and(|z| *z != authcid) {
                            return Err(format!("step {step}: {authcid:?} authenticated while acting as {authzid:?}"));
                        }
                        if *reply != want {
                            return Err(format!("step {step}: server-final {reply:?}, expected {want:?}"));
                        }
                        obs.push("auth".into());
                    }
                    Ok((S::NotAuthorized, reply)) => {
                        if !good || authzid.is_none() || authzid.as_ref() == Some(&authcid) {
                            return Err(format!("step {step}: unexpected NotAuthorized for {f:?}"));
                        }
                        if !reply.starts_with("e=") {
                            return Err(format!("step {step}: refusal reply {reply:?} is not an error message"));
                        }
                        obs.push("nauthz".into());
                    }
                    Ok((S::NotAuthenticated, reply)) => {
                        if good {
                            return Err(format!("step {step}: correct proof refused ({reply:?})"));
                        }
                        if !was_wf {
                            return Err(format!("step {step}: a verdict without an exchange in progress"));
                        }
                        if !reply.starts_with("e=") {
                            return Err(format!("step {step}: refusal reply {reply:?} is not an error message"));
                        }
                        obs.push("nauth".into());
                    }
                    Err(e) => {
                        if good {
                            return Err(format!("step {step}: correct client-final failed: {e}"));
                        }
                        obs.push("final-".into());
                    }
                }
                if was_wf {
                    m = M::Done;
                }
            }
        }
        let (wc, wz) = match &m {
            M::Wp { authcid, authzid, .. } | M::Wf { authcid, authzid, .. } => (Some(authcid.as_str()), Some(authzid.as_deref())),
            _ => (None, None),
        };
        if wc.is_some() && (s.authcid() != wc || s.authzid() != wz) {
            return Err(format!("step {step}: reports user {:?}/{:?}, the client claimed {wc:?}/{wz:?}", s.authcid(), s.authzid()));
        }
        let tag = match &m {
            M::New => "new".to_string(),
            M::Done => "done".to_string(),
            M::Wp { authcid, authzid, gs2, .. } => format!("wp{authcid}/{authzid:?}/{gs2}"),
            M::Wf { authcid, authzid, ex, .. } => format!("wf{authcid}/{authzid:?}/{}", ex.auth_digest()),
        };
        c.state(&(tag, stale.is_some()));
    }
    c.outcome(&obs.join(","));
    Ok(())
}

impl Exchange {
    fn auth_digest(&self) -> String {
        b64(&self.salted[..3])
    }
}

/// Full honest exchange against the server for one first message.
fn honest(c: &Check, first: &str, cred: (&str, &[u8], u16), rngn: usize) -> Outcome {
    c.transitions_add(3);
    let (gs2, authcid, authzid, bare) = parse_first(first).unwrap();
    let mut s = ScramServer::new();
    s.decode_client_first(first).map_err(|e| format!("valid client-first refused: {e}"))?;
    if s.authcid() != Some(&authcid) || s.authzid() != Some(authzid.as_deref()) {
        return Err(format!("identified as {:?}/{:?}, claimed {authcid:?}/{authzid:?}", s.authcid(), s.authzid()));
    }
    let (pw, salt, it) = cred;
    let sp = salted(pw, salt, it as u32);
    let hp = hash_password(pw, NonZeroU32::new(it as u32).unwrap(), salt);
    if hp[..] != sp[..] {
        return Err("hash_password differs from PBKDF2-HMAC-SHA-256".into());
    }
    let sf = s.encode_server_first(hp.to_vec(), salt, it, &mut rng(rngn)).map_err(|e| e.to_string())?;
    let (nonce, sa, i) = server_first_parts(&sf).ok_or("malformed server-first")?;
    if sa != salt || i != it as u32 {
        return Err("server-first does not carry the stored salt/iterations".into());
    }
    let ex = Exchange { gs2, bare, server_first: sf, nonce, salted: sp };
    let r = s.decode_client_final(&ex.client_final()).map_err(|e| format!("correct client-final failed: {e}"))?;
    c.outcome(&format!("{:?}", r.0));
    c.state(&(first, pw, salt, it));
    match r {
        (S::Authenticated, m) if authzid.as_ref().is_none_or(|z| *z == authcid) => {
            if m != ex.server_final() {
                return Err(format!("server-final {m:?} is not the server signature"));
            }
        }
        (S::NotAuthorized, m) if authzid.as_ref().is_some_and(|z| *z != authcid) => {
            if !m.starts_with("e=") {
                return Err(format!("refusal {m:?}"));
            }
        }
        (st, m) => return Err(format!("correct proof gave {st:?} {m:?} (authcid {authcid:?} authzid {authzid:?})")),
    }
    Ok(())
}

fn start(first: &str, cred: (&str, &[u8], u16)) -> (ScramServer, Exchange) {
    let (gs2, _, _, bare) = parse_first(first).unwrap();
    let mut s = ScramServer::new();
    s.decode_client_first(first).unwrap();
    let (pw, salt, it) = cred;
    let sp = salted(pw, salt, it as u32);
    let sf = s.encode_server_first(sp.clone(), salt, it, &mut rng(3)).unwrap();
    let (nonce, _, _) = server_first_parts(&sf).unwrap();
    (s, Exchange { gs2, bare, server_first: sf, nonce, salted: sp })
}

pub fn run(c: &Arc<Check>) {
    c.assume("SHA-256, HMAC, PBKDF2 (ring) and base64 are trusted; nonce randomness comes from a scripted RNG the explorer owns");

    // 1. every order of messages
    let f1: &'static str = "n,,n=user,r=cnonce=ABC.xyz/123!abcdef";
    let f2: &'static str = "n,a=user,n=user,r=cnonce=ABC.xyz/123!abcdef";
    let f3: &'static str = "n,a=admin,n=user,r=cnonce=ABC.xyz/123!abcdef";
    let f4: &'static str = "y,,n=user,r=cnonce=ABC.xyz/123!abcdef";
    let f5: &'static str = "n,,n=bob=2Cb=3D,r=cnonce=ABC.xyz/123!abcdef";
    let mut alpha = vec![Op::First(f1), Op::First(f3), Op::First("p=tls-unique,,n=user,r=x"), Op::ServerFirst(0), Op::ServerFirst(1)];
    for f in [F::Good, F::FlippedProof, F::OtherPassword, F::Stale, F::WrongNonce, F::WrongGs2, F::Garbage] {
        alpha.push(Op::Final(f));
    }
    c.explore_seqs("message-orders", &alpha, c.pick(6, 7), |o| format!("{o:?}"), |_, _| true, |ops| run_seq(c, ops));

    let mut wide: Vec<Op> = [f1, f2, f3, f4, f5].iter().map(|f| Op::First(f)).collect();
    wide.extend((0..3).map(Op::ServerFirst));
    for f in [F::Good, F::FlippedProof, F::OtherPassword, F::Stale, F::WrongNonce, F::ClientNonceOnly, F::WrongGs2, F::NoProof, F::EmptyProof, F::TruncatedProof, F::Garbage] {
        wide.push(Op::Final(f));
    }
    c.explore_seqs("message-orders-wide", &wide, c.pick(4, 5), |o| format!("{o:?}"), |_, _| true, |ops| run_seq(c, ops));

    // 2. grammar of the client-first message
    let flags = ["n", "y", "", "p", "p=tls-unique", "nn", "x", "ny", "é"];
    let azs = ["", "a=user", "a=admin", "a=", "a=other user", "a=x=2Cy", "a=x=3Dy", "b=user", "user", "a", "n=user", "a=bad=2X", "m=ext"];
    let names = ["n=user", "n=", "n=a=2Cb", "n=a=3Db", "n=a=3D2C", "n=a=b", "n=a=", "n=a=2c", "n=üser", "user", "r=x", "n", "m=ext", "é", "N=user", ""];
    let nonces = ["r=abcDEF123", "r=", "r=a=b=c", "r", "", "abc", "s=abc", "r=é", "é"];
    let exts = ["", ",", ",x=1", ",x=1,y=2"];
    let dims = [flags.len(), azs.len(), names.len(), nonces.len(), exts.len(), 2];
    let total: usize = dims.iter().product();
    let build = |mut i: usize| {
        let mut d = [0; 6];
        for k in 0..6 {
            d[k] = i % dims[k];
            i /= dims[k];
        }
        let drop_nonce = d[5] == 1;
        let mut s = format!("{},{},{}", flags[d[0]], azs[d[1]], names[d[2]]);
        if !drop_nonce {
            s += &format!(",{}{}", nonces[d[3]], exts[d[4]]);
        }
        (s, d)
    };
    c.explore_product("client-first-grammar", "gs2 flag x authzid x name x nonce x extensions x presence", total, |i| format!("{:?}", build(i).0), |i| {
        let (text, d) = build(i);
        let want = parse_first(&text);
        match want {
            Some((_, _, ref az, _)) => {
                // an empty authorization identity is outside the grammar: either answer is fine
                if az.as_deref() == Some("") {
                    let mut s = ScramServer::new();
                    let _ = s.decode_client_first(&text);
                    return Ok(());
                }
                honest(c, &text, CREDS[d[2] % 3], d[3])
            }
            None => {
                c.transition();
                let mut s = ScramServer::new();
                match s.decode_client_first(&text) {
                    Ok(()) => Err(format!("accepted a malformed client-first as {:?}/{:?}", s.authcid(), s.authzid())),
                    Err(e) => {
                        c.outcome(&format!("{e:?}"));
                        if s.authcid().is_some() {
                            return Err("a refused client-first left a user behind".into());
                        }
                        Ok(())
                    }
                }
            }
        }
    });

    // 3. credentials
    let pws = ["", "p", "pass,word", "pässwörd", "a long password with spaces ................................................................................."];
    let salts: [&[u8]; 4] = [b"\0", b"salt", b"0123456789abcdef0123456789abcdef", &[0xff, 0xfe, 0xfd, 0xfc, 0xfb]];
    let its: Vec<u16> = if c.thorough { vec![1, 2, 3, 10, 255, 256, 4096, 32768, 65535] } else { vec![1, 2, 256, 4096, 65535] };
    let firsts = [f1, f2, f3, f4, f5, "y,a=user,n=user,r=abc", "n,,n=,r=", "n,a=bob=2Cb=3D,n=bob=2Cb=3D,r=q"];
    let n = pws.len() * salts.len() * its.len() * firsts.len();
    c.explore_product("credentials", "password x salt x iterations x identity", n, |i| format!("{i}"), |i| {
        let p = pws[i % pws.len()];
        let s = salts[i / pws.len() % salts.len()];
        let it = its[i / pws.len() / salts.len() % its.len()];
        let f = firsts[i / pws.len() / salts.len() / its.len()];
        honest(c, f, (p, s, it), i)
    });

    // 4. every single-position corruption of a correct client-final
    for (fi, first) in [f1, f2, f4, f5].into_iter().enumerate() {
        let (_, ex) = start(first, CREDS[0]);
        let good = ex.client_final().into_bytes();
        let repl: Vec<u8> = if c.thorough { (0..=255u8).filter(|b| b.is_ascii()).collect() } else { b"\0 !+,/09=ACaz~crp".to_vec() };
        let kinds = repl.len() + 3;
        c.explore_product(&format!("client-final-corruptions-{fi}"), "position x (replacement byte | delete | duplicate | truncate)", good.len() * kinds, |i| format!("{i}"), |i| {
            c.transition();
            let pos = i / kinds;
            let k = i % kinds;
            let mut m = good.clone();
            if k < repl.len() {
                m[pos] = repl[k];
            } else if k == repl.len() {
                m.remove(pos);
            } else if k == repl.len() + 1 {
                let b = m[pos];
                m.insert(pos, b);
            } else {
                m.truncate(pos);
            }
            let text = String::from_utf8(m.clone()).unwrap();
            let (mut s, _) = start(first, CREDS[0]);
            let r = s.decode_client_final(&text);
            c.outcome(&format!("{:?}", r.as_ref().map(|x| x.0)));
            c.state(&(fi, &text));
            match r {
                Ok((S::Authenticated, _)) if m != good => Err(format!("corrupted client-final {text:?} authenticated")),
                Ok((S::Authenticated, _)) => Ok(()),
                r if m == good => Err(format!("correct client-final refused: {r:?}")),
                _ => Ok(()),
            }
        });
        // every bit of the proof, every length of it
        c.explore_product(&format!("proof-bits-{fi}"), "256 single-bit flips, 64 lengths", 256 + 64, |i| format!("{i}"), |i| {
            c.transition();
            let (mut s, ex) = start(first, CREDS[0]);
            let mut p = ex.proof();
            if i < 256 {
                p[i / 8] ^= 1 << (i % 8);
            } else {
                let len = i - 256;
                if len == 32 {
                    return Ok(());
                }
                p.resize(len, 0);
            }
            let msg = format!("c={},r={},p={}", b64(ex.gs2.as_bytes()), ex.nonce, b64(&p));
            match s.decode_client_final(&msg) {
                Ok((S::Authenticated, _)) | Ok((S::NotAuthorized, _)) => Err(format!("wrong proof accepted: {msg:?}")),
                _ => Ok(()),
            }
        });
    }

    // 5. every value the random source can produce, at every phase of the script
    c.explore_product("nonce-alphabet", "256 scripted random bytes x 8 phases", 256 * 8, |i| format!("{i}"), |i| {
        c.transition();
        let b = (i % 256) as u8;
        let ph = i / 256;
        let script: Vec<u8> = (0..24).map(|k| if k % 8 == ph { b } else { (k * 11 + 90) as u8 }).collect();
        let mut s = ScramServer::new();
        s.decode_client_first(f1).map_err(|e| e.to_string())?;
        let sf = s.encode_server_first(vec![1; 32], b"salt", 7, &mut ScriptRng::new(&script)).map_err(|e| e.to_string())?;
        let (nonce, _, _) = server_first_parts(&sf).ok_or(format!("malformed server-first {sf:?}"))?;
        let own = nonce.strip_prefix(CLIENT_NONCE).ok_or("nonce does not extend the client's")?;
        c.state(own);
        if own.chars().count() < 16 || !own.chars().all(|ch| ('!'..='~').contains(&ch) && ch != ',') {
            return Err(format!("nonce part {own:?}"));
        }
        // it depends on the random source
        let mut s2 = ScramServer::new();
        s2.decode_client_first(f1).unwrap();
        let script2: Vec<u8> = script.iter().map(|x| x.wrapping_add(0x55)).collect();
        let sf2 = s2.encode_server_first(vec![1; 32], b"salt", 7, &mut ScriptRng::new(&script2)).map_err(|e| e.to_string())?;
        if sf == sf2 {
            return Err("the nonce does not depend on the random source".into());
        }
        Ok(())
    });
}
