//! C20..C26: header and channel messages.

use crate::c_ntru::{kp, Kp};
use crate::ensure;
use crate::env::*;
use crate::refm::{self, Ntru, Rd, Sp, Wr, SIZE_MAX, T};
use crate::rt::{peak, Cov, Ctx, Fenced, BEHIND};
use crate::util::*;
use iota_mam::app::channel::msg::*;
use iota_mam::app::core::msg::header;
use iota_mam::pb3;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::mss;
use std::collections::HashMap;

// ------------------------------------------------------------------ messages

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Announce { sk: usize, ntru: Option<usize> },
    Change { sk: usize, linked: usize },
    Signed { p: T, m: T, sk: usize },
    Tagged { p: T, m: T },
    Keyload { psks: Vec<usize>, pks: Vec<usize>, key: T, nonce: T },
    Subscribe { sub: usize, ch: usize, nonce: T },
    Unsubscribe,
}
use M::*;

/// What a reader learns.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Announced(T, Option<T>),
    Changed(T),
    Signed(Option<T>, T, T),
    Tagged(T, T),
    Loaded,
    Subscribed(T),
    Unsubscribed(T),
}

pub struct Env {
    pub sks: Vec<Sk>,
    pub kps: Vec<Kp>,
    /// Identifier and secret.
    pub psks: Vec<(T, T)>,
    pub prng: T,
}
impl Env {
    fn new(c: &Ctx, sks: &[(u64, usize, usize)], nk: u64) -> Env {
        let made = std::sync::Mutex::new(vec![]);
        let made = &made;
        c.setup("signing-keys", || {
            std::thread::scope(|s| {
                for (i, &(k, h, n)) in sks.iter().enumerate() {
                    s.spawn(move || {
                        let x = sk(k, h, n);
                        made.lock().unwrap().push((i, x));
                    });
                }
            })
        });
        let mut v: Vec<(usize, Sk)> = std::mem::take(&mut *made.lock().unwrap());
        v.sort_by_key(|x| x.0);
        Env {
            sks: v.into_iter().map(|x| x.1).collect(),
            kps: (0..nk).map(|k| c.setup("keys", || kp(100 + k))).collect(),
            psks: (0..45).map(|i| (pat(600 + i, 81), pat(700 + i, 243))).collect(),
            prng: pat(800, 243),
        }
    }
    fn pkid(&self, i: usize) -> T {
        self.kps[i].r.pk[..81].to_vec()
    }
}

/// What a message can be linked to, with what is known about it.
#[derive(Clone)]
pub struct Ent {
    pub id: T,
    pub s: Spongos,
    pub r: Sp,
    pub key: Option<T>,
    pub npk: Option<usize>,
}
fn link(k: u64, n: usize) -> Ent {
    let (s, r) = pair(k, n);
    Ent { id: pat(k + 900, 81), s, r, key: None, npk: None }
}

/// A reader's secrets and trusted key.
#[derive(Default, Clone)]
pub struct Sec {
    /// Identifier and secret.
    pub psks: Vec<(T, T)>,
    pub nsks: Vec<(T, usize)>,
    pub ch: usize,
    pub pk: Option<T>,
}

impl M {
    pub fn typ(&self) -> &'static str {
        match self {
            Announce { .. } => announce::TYPE,
            Change { .. } => change_key::TYPE,
            M::Signed { .. } => signed_packet::TYPE,
            M::Tagged { .. } => tagged_packet::TYPE,
            Keyload { .. } => keyload::TYPE,
            Subscribe { .. } => subscribe::TYPE,
            Unsubscribe => unsubscribe::TYPE,
        }
    }
    pub fn size(&self, e: &Env) -> usize {
        match self {
            Announce { sk, ntru } => announce::sizeof(&e.sks[*sk].sk, ntru.is_some()),
            Change { sk, linked } => change_key::sizeof(&e.sks[*sk].sk, &e.sks[*linked].sk),
            M::Signed { p, m, sk } => signed_packet::sizeof(p.len() / 3, m.len() / 3, &e.sks[*sk].sk),
            M::Tagged { p, m } => tagged_packet::sizeof(p.len() / 3, m.len() / 3),
            Keyload { psks, pks, .. } => {
                let a: Vec<_> = psks.iter().map(|&i| (tr(&e.psks[i].0), tr(&e.psks[i].1))).collect();
                let b: Vec<_> = pks.iter().map(|&i| (tr(&e.pkid(i)), e.kps[i].pk.clone())).collect();
                keyload::sizeof(&mut a.iter().map(|x| (&x.0, &x.1)), &mut b.iter().map(|x| (&x.0, &x.1)))
            }
            Subscribe { .. } => subscribe::sizeof(),
            Unsubscribe => unsubscribe::sizeof(),
        }
    }
    pub fn write(&self, e: &Env, l: &Ent, s: &mut Spongos, b: &mut TritSliceMut) {
        let mut ls = l.s.clone();
        let ls = &mut ls;
        let prng = PRNG::init(sl(&e.prng));
        match self {
            Announce { sk, ntru } => announce::wrap(&e.sks[*sk].sk, &ntru.map(|i| e.kps[i].pk.clone()), s, b),
            Change { sk, linked } => change_key::wrap(sl(&l.id), ls, &e.sks[*sk].sk, &e.sks[*linked].sk, s, b),
            M::Signed { p, m, sk } => {
                signed_packet::wrap(&msgid(&l.id), ls, &pb3::Trytes(tr(p)), &pb3::Trytes(tr(m)), &e.sks[*sk].sk, s, b)
            }
            M::Tagged { p, m } => tagged_packet::wrap(&msgid(&l.id), ls, &pb3::Trytes(tr(p)), &pb3::Trytes(tr(m)), s, b),
            Keyload { psks, pks, key, nonce } => {
                let a: Vec<_> = psks.iter().map(|&i| (tr(&e.psks[i].0), tr(&e.psks[i].1))).collect();
                let c: Vec<_> = pks.iter().map(|&i| (tr(&e.pkid(i)), e.kps[i].pk.clone())).collect();
                keyload::wrap(
                    sl(&l.id),
                    ls,
                    &tr(nonce),
                    &mut a.iter().map(|x| (&x.0, &x.1)),
                    &mut c.iter().map(|x| (&x.0, &x.1)),
                    &prng,
                    &tr(key),
                    s,
                    b,
                )
            }
            Subscribe { sub, ch, nonce } => {
                subscribe::wrap(sl(&l.id), ls, &prng, sl(nonce), &e.kps[*sub].pk, &e.kps[*ch].pk, s, b)
            }
            Unsubscribe => unsubscribe::wrap(sl(&l.id), ls, s, b),
        }
    }
    pub fn refw(&self, e: &Env, l: &Ent, w: &mut Wr) {
        let mut ls = l.r.clone();
        let ls = &mut ls;
        match self {
            Announce { sk, ntru } => w.announce(&e.sks[*sk].r, ntru.map(|i| &e.kps[i].r.pk[..])),
            Change { sk, linked } => w.change_key(&l.id, ls, &e.sks[*sk].r, &e.sks[*linked].r),
            M::Signed { p, m, sk } => w.signed_packet(&l.id, ls, p, m, &e.sks[*sk].r),
            M::Tagged { p, m } => w.tagged_packet(&l.id, ls, p, m),
            Keyload { psks, pks, key, nonce } => {
                let a: Vec<_> = psks.iter().map(|&i| e.psks[i].clone()).collect();
                let c: Vec<_> = pks.iter().map(|&i| (e.pkid(i), e.kps[i].r.pk.clone())).collect();
                w.keyload(&l.id, ls, nonce, &a, &c, &e.prng, key)
            }
            Subscribe { sub, ch, nonce } => w.subscribe(&l.id, ls, &e.prng, nonce, &e.kps[*sub].r.pk, &e.kps[*ch].r.pk),
            Unsubscribe => w.unsubscribe(&l.id, ls),
        }
    }
    /// What its reader should learn; signed packets by recovery or verification.
    pub fn value(&self, e: &Env, l: &Ent, verify: bool) -> V {
        match self {
            Announce { sk, ntru } => V::Announced(e.sks[*sk].r.pk().clone(), ntru.map(|i| e.kps[i].r.pk.clone())),
            Change { sk, .. } => V::Changed(e.sks[*sk].r.pk().clone()),
            M::Signed { p, m, sk } => V::Signed((!verify).then(|| e.sks[*sk].r.pk().clone()), p.clone(), m.clone()),
            M::Tagged { p, m } => V::Tagged(p.clone(), m.clone()),
            Keyload { .. } => V::Loaded,
            Subscribe { sub, .. } => V::Subscribed(e.kps[*sub].r.pk.clone()),
            Unsubscribe => V::Unsubscribed(l.npk.map(|i| e.kps[i].r.pk.clone()).unwrap_or_default()),
        }
    }
}

/// Read a message of the kind of `m` (its contents are not used).
pub fn read(m: &M, e: &Env, st: &[Ent], sec: &Sec, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<V> {
    let find = |id: TritSlice| {
        let id = sv(id);
        st.iter().find(|l| l.id == id)
    };
    let plain = |id: TritSlice| find(id).map(|l| (l.s.clone(), ()));
    Ok(match m {
        Announce { .. } => {
            let (k, n) = announce::unwrap(s, b)?;
            V::Announced(mss_pk_trits(&k), n.map(|n| sv(n.trits())))
        }
        Change { .. } => {
            let look = |id: TritSlice<'_>| {
                let l = find(id)?;
                Some((l.s.clone(), mss_pk(l.key.as_ref()?)))
            };
            V::Changed(mss_pk_trits(&change_key::unwrap(look, s, b)?))
        }
        M::Signed { .. } => match &sec.pk {
            None => {
                let (k, p, m) = signed_packet::unwrap_recover(plain, s, b)?;
                V::Signed(Some(mss_pk_trits(&k)), tv(&p.0), tv(&m.0))
            }
            Some(k) => {
                let (p, m) = signed_packet::unwrap_verify(plain, &mss_pk(k), s, b)?;
                V::Signed(None, tv(&p.0), tv(&m.0))
            }
        },
        M::Tagged { .. } => {
            let (p, m) = tagged_packet::unwrap(plain, s, b)?;
            V::Tagged(tv(&p.0), tv(&m.0))
        }
        Keyload { .. } => {
            let psks: HashMap<_, _> = sec.psks.iter().map(|(a, b)| (tr(a), tr(b))).collect();
            let nsks: HashMap<_, _> = sec.nsks.iter().map(|(a, i)| (tr(a), e.kps[*i].sk.clone())).collect();
            keyload::unwrap(plain, &psks, &nsks, s, b)?;
            V::Loaded
        }
        Subscribe { .. } => V::Subscribed(sv(subscribe::unwrap(plain, &e.kps[sec.ch].sk, s, b)?.trits())),
        Unsubscribe => {
            let look = |id: TritSlice| {
                let l = find(id)?;
                Some((l.s.clone(), e.kps[l.npk?].pk.clone()))
            };
            V::Unsubscribed(sv(unsubscribe::unwrap(look, s, b)?.trits()))
        }
    })
}
/// The same by the documentation.
pub fn refr(m: &M, e: &Env, st: &[Ent], sec: &Sec, r: &mut Rd) -> Option<V> {
    let join = |r: &mut Rd, need: &dyn Fn(&Ent) -> bool| {
        let id = r.raw(81)?.to_vec();
        let l = st.iter().find(|l| l.id == id)?;
        if !need(l) {
            return None;
        }
        r.s.join(&mut l.r.clone());
        Some(l)
    };
    Some(match m {
        Announce { .. } => {
            let pk = r.absorb(243)?;
            let n = match refm::get(&r.absorb(3)?) {
                0 => None,
                1 => {
                    let n = r.absorb(9216)?;
                    refm::ntru_pk(&n)?;
                    Some(n)
                }
                _ => return None,
            };
            let h = r.hash();
            if r.sig(&h)? != pk {
                return None;
            }
            V::Announced(pk, n)
        }
        Change { .. } => {
            let l = join(r, &|l| l.key.is_some())?;
            let pk = r.absorb(243)?;
            let h = r.hash();
            if r.sig(&h)? != pk || r.sig(&h)? != *l.key.as_ref()? {
                return None;
            }
            V::Changed(pk)
        }
        M::Signed { .. } => {
            join(r, &|_| true)?;
            let (p, m) = (r.absorb_trytes()?, r.unmask_trytes()?);
            let h = r.hash();
            let k = r.sig(&h)?;
            match &sec.pk {
                None => V::Signed(Some(k), p, m),
                Some(x) if *x == k => V::Signed(None, p, m),
                _ => return None,
            }
        }
        M::Tagged { .. } => {
            join(r, &|_| true)?;
            let (p, m) = (r.absorb_trytes()?, r.unmask_trytes()?);
            r.mac()?;
            V::Tagged(p, m)
        }
        Keyload { .. } => {
            join(r, &|_| true)?;
            r.absorb(81)?;
            let mut key = None;
            for (ntru, body) in [(false, 243), (true, 9216)] {
                let n = r.absorb_size()?;
                for _ in 0..n {
                    if (r.b.len() as i128) < body + 81 {
                        return None;
                    }
                    if key.is_some() {
                        r.raw(body as usize + 81)?;
                        continue;
                    }
                    let mut f = r.s.clone();
                    let mut x = Rd::new(&mut f, r.b);
                    let id = x.absorb(81)?;
                    if ntru {
                        match sec.nsks.iter().find(|x| x.0 == id) {
                            None => {
                                x.raw(9216)?;
                            }
                            Some((_, i)) => key = Some(x.ntrukem(&e.kps[*i].r)?),
                        }
                    } else {
                        match sec.psks.iter().find(|x| x.0 == id) {
                            None => {
                                x.raw(243)?;
                            }
                            Some((_, psk)) => {
                                x.s.absorb(psk);
                                x.s.commit();
                                key = Some(x.unmask(243)?);
                            }
                        }
                    }
                    r.b = x.b;
                }
            }
            r.s.absorb(&key?);
            r.s.commit();
            V::Loaded
        }
        Subscribe { .. } => {
            join(r, &|_| true)?;
            r.ntrukem(&e.kps[sec.ch].r)?;
            r.s.commit();
            let pk = r.unmask(9216)?;
            refm::ntru_pk(&pk)?;
            r.mac()?;
            V::Subscribed(pk)
        }
        Unsubscribe => {
            let l = join(r, &|l| l.npk.is_some())?;
            r.mac()?;
            V::Unsubscribed(e.kps[l.npk?].r.pk.clone())
        }
    })
}

/// Secrets with which the message is read.
fn secrets(m: &M, e: &Env, verify: bool) -> Sec {
    let mut x = Sec::default();
    match m {
        M::Signed { sk, .. } if verify => x.pk = Some(e.sks[*sk].r.pk().clone()),
        Keyload { psks, pks, .. } => {
            x.psks = psks.iter().map(|&i| e.psks[i].clone()).collect();
            x.nsks = pks.iter().map(|&i| (e.pkid(i), i)).collect();
        }
        Subscribe { ch, .. } => x.ch = *ch,
        _ => {}
    }
    x
}

/// Write, read back, and with `full` compare with the documentation in both directions.
fn trip(e: &Env, m: &M, l: &Ent, start: &(Spongos, Sp), verify: bool, full: bool) -> Result<T, String> {
    let name = || {
        let d = format!("{:?}", m);
        if d.len() > 200 { format!("{}..", &d[..200]) } else { d }
    };
    let mut w = start.0.clone();
    let wire = written(m.size(e), |b| m.write(e, l, &mut w, b)).map_err(|x| format!("{}: {}", name(), x))?;
    let sec = secrets(m, e, verify);
    let want = m.value(e, l, verify);
    let mut l = l.clone();
    if let Change { linked, .. } = m {
        l.key = Some(e.sks[*linked].r.pk().clone());
    }
    let st = [link(77, 10), l.clone(), link(78, 0)];
    let mut tail = wire.clone();
    tail.extend(pat(wire.len() as u64, wire.len() % 30));
    let mut d = start.0.clone();
    let mut b = sl(&tail);
    let got = read(m, e, &st, &sec, &mut d, &mut b).map_err(|x| format!("{} is refused: {:?}", name(), x))?;
    ensure!(got == want, "{} is read with other contents", name());
    ensure!(b.size() == wire.len() % 30, "reading {} leaves {} trits instead of {}", name(), b.size(), wire.len() % 30);
    same(&format!("sponge after reading {}", name()), &tag(&d), &tag(&w))?;
    if full {
        let mut r = start.1.clone();
        let mut x = Wr::new(&mut r);
        m.refw(e, &l, &mut x);
        let want_wire = x.b;
        same(&format!("{} against its documentation", name()), &wire, &want_wire)?;
        in_sync(&format!("sponge after writing {}", name()), &w, &r)?;
        let mut r = start.1.clone();
        let mut x = Rd::new(&mut r, &tail);
        let got = refr(m, e, &st, &sec, &mut x).ok_or_else(|| format!("a conforming reader refuses {}", name()))?;
        ensure!(got == want && x.b.len() == wire.len() % 30, "a conforming reader reads {} differently", name());
        in_sync(&format!("sponge of a conforming reader of {}", name()), &w, &r)?;
    }
    Ok(wire)
}

/// State after a header, with both sponges.
fn headed(typ: &T, app: &T, id: &T) -> Result<(T, (Spongos, Sp)), String> {
    let mut s = Spongos::init();
    let n = header::sizeof(typ.len() / 3);
    let wire = written(n, |b| header::wrap(&pb3::Trytes(tr(typ)), &appinst(app), &msgid(id), &mut s, b))?;
    let mut r = Sp::new();
    let mut x = Wr::new(&mut r);
    x.header(typ, app, id);
    let w = x.b;
    same("header", &wire, &w)?;
    in_sync("sponge after the header", &s, &r)?;
    Ok((wire, (s, r)))
}

fn links() -> Vec<Ent> {
    [0usize, 1, 243, 300, 485, 486, 500, 972, 1000].iter().enumerate().map(|(i, &n)| Ent { npk: Some(1), ..link(i as u64 + 1, n) }).collect()
}
/// Keys of every height up to `h` after every number of signatures.
fn heights(h: usize) -> Vec<(u64, usize, usize)> {
    (0..=h).flat_map(|h| (0..1 << h).map(move |n| (10 + h as u64, h, n))).collect()
}

pub fn c20(c: &Ctx) {
    trips(c, false)
}
pub fn c21(c: &Ctx) {
    trips(c, true)
}
fn trips(c: &Ctx, full: bool) {
    let maxh = if full { c.q(2, 4) } else { c.q(3, 5) };
    let mut hs = heights(maxh);
    // and a tall key, at its first, a middle and its last signature
    let tall = if full { c.q(5, 8) } else { c.q(6, 9) };
    hs.extend([0, (1 << tall) / 2 - 1, (1 << tall) - 1].iter().map(|&n| (10 + tall as u64, tall, n)));
    let e = Env::new(c, &hs, 4);
    let e = &e;
    let ls = links();
    let ls = &ls;
    let st = |i: u64| match i % 4 {
        0 => pair(0, 0),
        1 => headed(&str_trits("MAM9CHANNEL9ANNOUNCE"), &pat(1, 243), &pat(2, 81)).unwrap().1,
        2 => pair(3, 1),
        _ => pair(4, 485 + (i as usize / 4) % 487),
    };
    let st = &st;
    let nh = hs.len() as u64;
    let one = |cov: &mut Cov, i: u64, m: M, verify: bool| -> Result<(), String> {
        let l = &ls[i as usize % ls.len()];
        let l = Ent { npk: Some(i as usize % 4), ..l.clone() };
        let w = trip(e, &m, &l, &st(i / 9), verify, full)?;
        cov.case(true);
        cov.sample(|| format!("{} of {} trits", m.typ(), w.len()));
        Ok(())
    };
    let one = &one;
    c.par("announce", nh * 3, |i, cov| {
        one(cov, i, Announce { sk: i as usize / 3, ntru: [None, Some(0), Some(1 + i as usize / 3 % 3)][i as usize % 3] }, false)
    });
    c.par("change-key", nh * nh, |i, cov| {
        let d = mixed(i, &[nh, nh]);
        // all pairs of heights with some pair of indices; in the thorough run all pairs
        if !c.thorough && (d[0] * 3 + d[1]) % 3 != 0 && d[0] > 2 && d[1] > 2 {
            return Ok(());
        }
        one(cov, i, Change { sk: d[0], linked: d[1] }, false)
    });
    let big = [13usize, 14, 81, 120, 162, 163, 243, 364, 365, 366, 500, 729, 1000];
    c.par("signed", nh * 2, |i, cov| {
        one(cov, i, M::Signed { p: pat(i, 3 * (i as usize % 40)), m: pat(i + 1, 3 * (i as usize * 7 % 50)), sk: i as usize / 2 }, i % 2 == 0)
    });
    let ps = c.q(7u64, 20);
    c.par("signed-payloads", ps * ps + 13 * 2 * 2, |i, cov| {
        let (p, m) = if i < ps * ps {
            ((i % ps) as usize, (i / ps) as usize)
        } else {
            let j = i - ps * ps;
            let b = big[j as usize % 13];
            if j / 13 % 2 == 0 { (b, (j / 26) as usize) } else { ((j / 26) as usize, b) }
        };
        one(cov, i, M::Signed { p: fill(i, 3 * p), m: fill(i / 3, 3 * m), sk: 0 }, i % 3 == 0)
    });
    let pt = c.q(41u64, 140);
    c.par("tagged-payloads", pt * pt, |i, cov| {
        let d = mixed(i, &[pt, pt]);
        one(cov, i, M::Tagged { p: fill(i, 3 * d[0]), m: fill(i / 5, 3 * d[1]) }, false)
    });
    c.par("tagged-lengths", c.q(800, 3000) * 2, |i, cov| {
        let n = i as usize / 2;
        let (p, m) = if i % 2 == 0 { (n, 364) } else { (13, n) };
        one(cov, i, M::Tagged { p: fill(i / 7, 3 * p), m: fill(i / 3, 3 * m) }, false)
    });
    c.par("tagged-long", 16, |i, cov| {
        let n = [9840, 9841, 9842, 4000, 12000, 20000, 65537, 88000][i as usize % 8];
        one(cov, i, if i < 8 { M::Tagged { p: pat(i, 3 * n), m: vec![] } } else { M::Tagged { p: vec![], m: pat(i, 3 * n) } }, false)
    });
    let counts: Vec<usize> = (0..=15).chain([20, 40]).collect();
    c.par("keyload", counts.len() as u64 * 6, |i, cov| {
        let (np, nn) = (counts[i as usize / 6], i as usize % 6);
        if np + nn == 0 {
            return Ok(());
        }
        let m = Keyload {
            psks: (0..np).collect(),
            pks: (0..nn).map(|k| k % 4).collect(),
            key: fill(i, 243),
            nonce: fill(i / 3, 81),
        };
        one(cov, i, m, false)
    });
    c.par("keyload-ntru-counts", 3, |i, cov| {
        let m = Keyload { psks: vec![], pks: (0..[13, 14, 15][i as usize]).map(|k| k % 4).collect(), key: pat(1, 243), nonce: pat(2, 81) };
        one(cov, i, m, false)
    });
    c.par("subscribe", 16 * 9 * c.q(3, 30), |i, cov| {
        let d = mixed(i, &[4, 4, 1000]);
        one(cov, i, Subscribe { sub: d[0], ch: d[1], nonce: fill(i, [0, 1, 3, 81, 243, 500][d[2] % 6]) }, false)
    });
    c.par("unsubscribe", 9 * 4 * 487, |i, cov| one(cov, i, Unsubscribe, false));
    // a sender and a reader each after a full message
    c.par("after-each-other", 49, |i, cov| {
        let kinds: Vec<M> = vec![
            Announce { sk: 1, ntru: Some(0) },
            Change { sk: 2, linked: 0 },
            M::Signed { p: pat(1, 30), m: pat(2, 60), sk: 1 },
            M::Tagged { p: pat(3, 300), m: pat(4, 3) },
            Keyload { psks: vec![0, 1], pks: vec![2], key: pat(5, 243), nonce: pat(6, 81) },
            Subscribe { sub: 1, ch: 0, nonce: pat(7, 81) },
            Unsubscribe,
        ];
        let (a, b) = (&kinds[i as usize % 7], &kinds[i as usize / 7]);
        // the state left by the first is the link of the second
        let l = Ent { npk: Some(1), ..ls[4].clone() };
        let mut w = st(1).0;
        written(a.size(e), |x| a.write(e, &l, &mut w, x))?;
        let mut r = st(1).1;
        a.refw(e, &l, &mut Wr::new(&mut r));
        let l2 = Ent { id: pat(33, 81), s: w, r, key: None, npk: Some(2) };
        let l2 = Ent { id: l2.id.clone(), ..l2 };
        one_with(e, b, &l2, &st(2), full)?;
        cov.case(true);
        Ok(())
    });
}
fn one_with(e: &Env, m: &M, l: &Ent, st: &(Spongos, Sp), full: bool) -> Result<(), String> {
    trip(e, m, l, st, true, full).map(|_| ())
}

// ------------------------------------------------------------------ C22, C23

/// One message of every kind with its reader.
struct Case {
    name: &'static str,
    m: M,
    l: Ent,
    sec: Sec,
    start: (Spongos, Sp),
    wire: T,
    /// Where the header ends when there is one.
    head: usize,
    /// Start of each signature.
    sigs: Vec<usize>,
}
impl Case {
    fn st(&self) -> Vec<Ent> {
        vec![link(77, 10), self.l.clone(), Ent { key: self.l.key.clone(), npk: self.l.npk, ..link(78, 600) }]
    }
    fn read(&self, e: &Env, st: &[Ent], sec: &Sec, start: &Spongos, b: &mut TritSlice) -> (pb3::Result<V>, Spongos) {
        let mut s = start.clone();
        let r = read(&self.m, e, st, sec, &mut s, b);
        (r, s)
    }
    fn accepts(&self, e: &Env, wire: &[u8]) -> Option<V> {
        self.read(e, &self.st(), &self.sec, &self.start.0, &mut sl(wire)).0.ok()
    }
}
fn case(c: &Ctx, e: &Env, name: &'static str, m: M, verify: bool, k: u64) -> Case {
    let key = if let Change { linked, .. } = &m { Some(e.sks[*linked].r.pk().clone()) } else { None };
    let mut l = Ent { npk: Some(2), key, ..link(k, 100 * k as usize) };
    // what a link is joined to is a committed state
    l.s.commit();
    l.r.commit();
    let start = pair(50 + k, 37 * k as usize);
    let sec = secrets(&m, e, verify);
    let mut w = start.0.clone();
    let wire = c.setup(name, || written(m.size(e), |b| m.write(e, &l, &mut w, b)).unwrap_or_else(|x| panic!("{}", x)));
    let sig = |k: usize| mss::sig_size(e.sks[k].sk.height());
    let sigs = match &m {
        Announce { sk, .. } | M::Signed { sk, .. } => vec![wire.len() - sig(*sk)],
        Change { sk, linked } => vec![wire.len() - sig(*sk) - sig(*linked), wire.len() - sig(*linked)],
        _ => vec![],
    };
    Case { name, m, l, sec, start, wire, head: 0, sigs }
}
fn cases(c: &Ctx, e: &Env) -> Vec<Case> {
    let mk = |name: &'static str, m: M, verify: bool, k: u64| case(c, e, name, m, verify, k);
    vec![
        mk("announce", Announce { sk: 0, ntru: None }, false, 1),
        mk("announce with encryption key", Announce { sk: 1, ntru: Some(0) }, false, 2),
        mk("change key", Change { sk: 1, linked: 2 }, false, 3),
        mk("change key of equal heights", Change { sk: 1, linked: 3 }, false, 4),
        mk("signed packet, verified", M::Signed { p: pat(1, 42), m: pat(2, 60), sk: 2 }, true, 5),
        mk("signed packet, recovered", M::Signed { p: pat(3, 3), m: pat(4, 81), sk: 1 }, false, 6),
        mk("signed packet without payload", M::Signed { p: vec![], m: vec![], sk: 0 }, true, 7),
        mk("tagged packet", M::Tagged { p: pat(5, 120), m: pat(6, 600) }, false, 8),
        mk("tagged packet without payload", M::Tagged { p: vec![], m: vec![] }, false, 9),
        mk("subscribe", Subscribe { sub: 1, ch: 0, nonce: pat(7, 81) }, false, 10),
        mk("unsubscribe", Unsubscribe, false, 11),
        mk("keyload", Keyload { psks: vec![0, 1], pks: vec![1, 2], key: pat(8, 243), nonce: pat(9, 81) }, false, 12),
    ]
}
fn authenticated(m: &M) -> bool {
    !matches!(m, Keyload { .. })
}
/// Whether the reader was fooled: it accepted, and where the key is recovered, as the author's.
fn fooled(cs: &Case, e: &Env, got: &Option<V>) -> bool {
    match (got, &cs.m) {
        (None, _) => false,
        (Some(V::Signed(Some(k), ..)), M::Signed { sk, .. }) => k == e.sks[*sk].r.pk(),
        _ => true,
    }
}

fn std_env(c: &Ctx) -> Env {
    Env::new(c, &[(1, 0, 0), (2, 1, 1), (3, 2, 2), (4, 1, 0), (5, 1, 1), (6, 0, 0)], 5)
}

pub fn c22(c: &Ctx) {
    let e = std_env(c);
    let e = &e;
    let cs: Vec<Case> = cases(c, e).into_iter().filter(|x| authenticated(&x.m)).collect();
    let cs = &cs;
    c.par("genuine", cs.len() as u64, |i, cov| {
        let x = &cs[i as usize];
        ensure!(x.accepts(e, &x.wire) == Some(x.m.value(e, &x.l, x.sec.pk.is_some())), "{} is not read back", x.name);
        cov.case(false);
        Ok(())
    });
    // every trit
    let stride = c.q(23usize, 2);
    let mut pts = vec![];
    for (k, x) in cs.iter().enumerate() {
        for p in 0..x.wire.len() {
            // inside the hash chains of a signature, in quick runs, some
            let chain = x.sigs.iter().any(|&s| p >= s + 18 && p < s + 18 + 13122);
            if !chain || (p + k) % stride == 0 {
                pts.push((k, p));
            }
        }
    }
    c.par("trits", pts.len() as u64, |i, cov| {
        let (k, p) = pts[i as usize];
        let x = &cs[k];
        let mut w = x.wire.clone();
        // now and then the genuine one comes first, by the same thread
        ensure!(p % 16 != 5 || x.accepts(e, &w).is_some(), "{} is not read back", x.name);
        for _ in 0..2 {
            w[p] = (w[p] + 1) % 3;
            let got = x.accepts(e, &w);
            ensure!(!fooled(x, e, &got), "{} of {} trits is accepted with trit {} altered", x.name, w.len(), p);
            cov.case(true);
        }
        cov.sample(|| format!("{} with trit {} altered", x.name, p));
        Ok(())
    });
    // Whole pieces replaced: constants, negated, reversed, exchanged, moved by one.
    let wins: &[usize] = if c.thorough { &[3, 9, 27, 81, 162, 243, 486, 972] } else { &[3, 81, 243, 972] };
    let mut at = vec![];
    for (k, x) in cs.iter().enumerate() {
        for &w in wins {
            // from both ends, so that every field at the end is met exactly
            let n = x.wire.len();
            let step = c.q(972usize, 162).max(w / 4);
            for p in (0..n).step_by(step) {
                for p in [p, (n - 1 - p).saturating_sub(w - 1), p + 81] {
                    if p + w <= n {
                        at.push((k, w, p));
                    }
                }
            }
        }
    }
    at.sort();
    at.dedup();
    c.par("pieces", at.len() as u64, |i, cov| {
        let (k, n, p) = at[(i * 7919 % at.len() as u64) as usize];
        ensure!(at.len() % 7919 != 0, "harness");
        let x = &cs[k];
        let old = &x.wire[p..p + n];
        let mut new: Vec<T> = (0..3).map(|v| vec![v; n]).collect();
        new.push(old.iter().map(|t| (3 - t) % 3).collect());
        new.push(old.iter().rev().cloned().collect());
        new.push([&old[n / 2..], &old[..n / 2]].concat());
        new.push([&old[1..], &old[..1]].concat());
        for y in new {
            if y == old {
                continue;
            }
            let mut w = x.wire.clone();
            w[p..p + n].copy_from_slice(&y);
            ensure!(!fooled(x, e, &x.accepts(e, &w)), "{} of {} trits is accepted with {} trits at {} replaced", x.name, w.len(), n, p);
            cov.case(true);
        }
        Ok(())
    });
    // Payloads of very many blocks: what is authenticated is all of them.
    let sizes: &[(usize, usize)] =
        if c.thorough { &[(31200, 0), (0, 31200), (15600, 15600), (65601, 3), (3, 65601)] } else { &[(31200, 0), (0, 31200), (9, 16401)] };
    let big: Vec<Case> = sizes
        .iter()
        .flat_map(|&(p, m)| {
            let t = case(c, e, "long tagged packet", M::Tagged { p: pat(60, p), m: pat(61, m) }, false, 8);
            let s = case(c, e, "long signed packet", M::Signed { p: pat(62, p), m: pat(63, m), sk: 1 }, true, 6);
            vec![t, s]
        })
        .collect();
    let big = &big;
    let (st, n) = (c.q(47usize, 11), big.iter().map(|x| x.wire.len()).max().unwrap());
    c.par("long", big.len() as u64 * (1 + n as u64 / st as u64), |i, cov| {
        let (x, p) = (&big[i as usize % big.len()], i as usize / big.len() * st);
        if p == 0 {
            ensure!(x.accepts(e, &x.wire) == Some(x.m.value(e, &x.l, x.sec.pk.is_some())), "{} of {} trits is not read back", x.name, x.wire.len());
        }
        if p >= x.wire.len() {
            return Ok(());
        }
        let mut w = x.wire.clone();
        for _ in 0..2 {
            w[p] = (w[p] + 1) % 3;
            ensure!(!fooled(x, e, &x.accepts(e, &w)), "{} of {} trits is accepted with trit {} altered", x.name, w.len(), p);
            cov.case(true);
        }
        // neighbouring pieces exchanged
        if p + 2 * st < x.wire.len() {
            let mut w = x.wire.clone();
            let (a, b) = w[p..p + 2 * st].split_at_mut(st);
            if a != b {
                a.swap_with_slice(b);
                ensure!(!fooled(x, e, &x.accepts(e, &w)), "{} of {} trits is accepted with pieces exchanged at {}", x.name, w.len(), p);
                cov.case(true);
            }
        }
        Ok(())
    });
    // another linked state, another state of the reader
    c.par("states", cs.len() as u64 * 120, |i, cov| {
        let d = mixed(i, &[cs.len() as u64, 120]);
        let x = &cs[d[0]];
        let linked = !matches!(x.m, Announce { .. });
        if linked {
            // the state the link was made of, with one trit changed
            let mut st = x.st();
            let kk = (0..20).find(|&k| pat(k + 900, 81) == x.l.id).unwrap();
            let mut t = pat(kk, 100 * kk as usize);
            let p = d[1] * (t.len() - 1) / 119;
            t[p] = (t[p] + 1 + d[1] as u8 % 2) % 3;
            let mut s = Spongos::init();
            s.absorb(sl(&t));
            s.commit();
            st[1].s = s;
            let got = x.read(e, &st, &x.sec, &x.start.0, &mut sl(&x.wire)).0.ok();
            ensure!(!fooled(x, e, &got), "{} is accepted with trit {} of the linked state altered", x.name, p);
            cov.case(true);
        }
        let kk = (0..20).find(|&k| pat(k + 900, 81) == x.l.id).unwrap();
        let mut t = pat(50 + kk, 37 * kk as usize);
        let p = d[1] * (t.len() - 1) / 119;
        t[p] = (t[p] + 1 + d[1] as u8 % 2) % 3;
        let mut s = Spongos::init();
        s.absorb(sl(&t));
        let got = x.read(e, &x.st(), &x.sec, &s, &mut sl(&x.wire)).0.ok();
        ensure!(!fooled(x, e, &got), "{} is accepted with trit {} of those absorbed before altered", x.name, p);
        cov.case(true);
        Ok(())
    });
    // every other link, key and secret
    c.par("secrets", cs.len() as u64 * 9, |i, cov| {
        let d = mixed(i, &[cs.len() as u64, 9]);
        let x = &cs[d[0]];
        let mut st = x.st();
        let mut sec = x.sec.clone();
        let mut wire = x.wire.clone();
        let n = d[1];
        let mut tried = true;
        match (&x.m, n) {
            (Announce { .. }, _) => tried = false,
            // the link of another message on the wire
            (_, 0) => wire[..81].copy_from_slice(&st[2].id),
            // the link unknown
            (_, 1) => {
                st.remove(1);
            }
            // the link known as another message
            (_, 2) => st[1].s = st[2].s.clone(),
            (Change { .. }, k @ 3..=8) => {
                let other = e.sks[k - 3].r.pk().clone();
                tried = Some(&other) != st[1].key.as_ref();
                st[1].key = Some(other);
            }
            (M::Signed { sk, .. }, k @ 3..=8) => {
                let other = e.sks[k - 3].r.pk();
                tried = other != e.sks[*sk].r.pk() && sec.pk.is_some();
                sec.pk = Some(other.clone());
            }
            (Subscribe { ch, .. }, k @ 3..=7) => {
                sec.ch = k - 3;
                tried = sec.ch != *ch;
            }
            _ => tried = false,
        }
        if tried {
            let got = x.read(e, &st, &sec, &x.start.0, &mut sl(&wire)).0.ok();
            ensure!(!fooled(x, e, &got), "{} is accepted with wrong link, key or secret number {}", x.name, n);
            cov.case(true);
        }
        Ok(())
    });
    // trusted keys one trit away, the genuine one first
    let trusting: Vec<&Case> = cs.iter().filter(|x| matches!(x.m, Change { .. }) || matches!(x.m, M::Signed { .. }) && x.sec.pk.is_some()).collect();
    c.par("keys-one-trit-away", trusting.len() as u64 * 243, |i, cov| {
        let (x, p) = (trusting[i as usize % trusting.len()], i as usize / trusting.len());
        if p % 9 == 0 {
            ensure!(x.accepts(e, &x.wire).is_some(), "{} is not read", x.name);
        }
        for d in 1..3 {
            let (mut st, mut sec) = (x.st(), x.sec.clone());
            let k = match &x.m {
                Change { .. } => st[1].key.as_mut().unwrap(),
                _ => sec.pk.as_mut().unwrap(),
            };
            k[p] = (k[p] + d) % 3;
            let got = x.read(e, &st, &sec, &x.start.0, &mut sl(&x.wire)).0;
            ensure!(got.is_err(), "{} is accepted with trit {} of the trusted key changed", x.name, p);
            cov.case(true);
        }
        Ok(())
    });
    // a key known to a reader but not the linked one; no key known
    c.one("no-key", |cov| {
        for x in cs.iter().filter(|x| matches!(x.m, Change { .. } | Unsubscribe)) {
            let mut st = x.st();
            st[1].key = None;
            st[1].npk = None;
            ensure!(x.read(e, &st, &x.sec, &x.start.0, &mut sl(&x.wire)).0.is_err(), "{} is accepted without a key", x.name);
            cov.case(true);
        }
        Ok(())
    });
    // parts of two genuine messages of a kind
    let sp: Vec<(M, M, usize)> = vec![
        (Announce { sk: 1, ntru: None }, Announce { sk: 3, ntru: None }, 1),
        (Announce { sk: 0, ntru: None }, Announce { sk: 5, ntru: None }, 1),
        (Announce { sk: 1, ntru: Some(0) }, Announce { sk: 1, ntru: Some(1) }, 1),
        (Announce { sk: 1, ntru: Some(0) }, Announce { sk: 1, ntru: None }, 1),
        (Change { sk: 1, linked: 3 }, Change { sk: 4, linked: 3 }, 1),
        (Change { sk: 1, linked: 3 }, Change { sk: 1, linked: 4 }, 1),
        (M::Signed { p: pat(1, 30), m: pat(2, 30), sk: 1 }, M::Signed { p: pat(3, 30), m: pat(2, 30), sk: 1 }, 1),
        (M::Signed { p: pat(1, 30), m: pat(2, 30), sk: 1 }, M::Signed { p: pat(1, 30), m: pat(4, 30), sk: 1 }, 1),
        (M::Signed { p: pat(1, 30), m: pat(2, 30), sk: 1 }, M::Signed { p: pat(1, 33), m: pat(2, 27), sk: 1 }, 1),
        (M::Signed { p: vec![0; 30], m: vec![0; 33], sk: 1 }, M::Signed { p: vec![0; 33], m: vec![0; 30], sk: 1 }, 1),
        (M::Tagged { p: vec![0; 30], m: vec![0; 33] }, M::Tagged { p: vec![0; 33], m: vec![0; 30] }, 1),
        (M::Tagged { p: pat(1, 30), m: pat(2, 30) }, M::Tagged { p: pat(1, 30), m: pat(3, 30) }, 1),
        (M::Tagged { p: pat(1, 30), m: vec![] }, M::Tagged { p: vec![], m: pat(1, 30) }, 1),
        (Subscribe { sub: 1, ch: 0, nonce: pat(1, 81) }, Subscribe { sub: 2, ch: 0, nonce: pat(1, 81) }, 1),
        (Subscribe { sub: 1, ch: 0, nonce: pat(1, 81) }, Subscribe { sub: 1, ch: 0, nonce: pat(2, 81) }, 1),
    ];
    c.par("spliced", sp.len() as u64 * c.q(150, 2000), |i, cov| {
        let (a, b, _) = &sp[i as usize % sp.len()];
        let k = i as usize / sp.len();
        let linked = if let Change { linked, .. } = a { Some(e.sks[*linked].r.pk().clone()) } else { None };
        let l = Ent { npk: Some(0), key: linked, ..link(3, 333) };
        let start = pair(4, 44);
        let wa = written(a.size(e), |x| a.write(e, &l, &mut start.0.clone(), x))?;
        let wb = written(b.size(e), |x| b.write(e, &l, &mut start.0.clone(), x))?;
        let n = wa.len().min(wb.len());
        // starts as one of them and ends as the other
        let q = c.q(150, 2000);
        let cut = match k {
            0..=9 => [81, 84, 87, 243, 246, 114, 117, 120, 147, 150][k].min(n),
            _ => n * k / q,
        };
        for mut w in [[&wa[..cut], &wb[wb.len() - (wb.len() - cut.min(wb.len()))..]].concat(), [&wb[..cut.min(wb.len())], &wa[cut..]].concat()] {
            if w.starts_with(&wa) || w.starts_with(&wb) {
                continue;
            }
            w.extend(pat(1, 300));
            let x = Case { name: "spliced message", m: a.clone(), l: l.clone(), sec: secrets(a, e, true), start: start.clone(), wire: w.clone(), head: 0, sigs: vec![] };
            let got = x.accepts(e, &w);
            // what is accepted must be one of the two, unaltered
            if let Some(v) = &got {
                ensure!(
                    (*v == a.value(e, &l, true) && w.starts_with(&wa)) || (*v == b.value(e, &l, true) && w.starts_with(&wb)),
                    "{:?} spliced at {} is accepted",
                    a.typ(),
                    cut
                );
            }
            cov.case(true);
        }
        Ok(())
    });
    // signatures of a change exchanged or repeated; signature by a stranger over the same contents
    c.par("signers", 6 * 6 * 6, |i, cov| {
        let d = mixed(i, &[6, 6, 6]);
        // announced key d0; signed by d1 and d2
        let l = Ent { key: Some(e.sks[2].r.pk().clone()), npk: None, ..link(3, 333) };
        let start = pair(4, 44);
        let mut r = start.1.clone();
        let mut w = Wr::new(&mut r);
        w.join(&l.id, &mut l.r.clone());
        w.absorb(e.sks[d[0]].r.pk());
        w.s.commit();
        let h = w.s.squeeze(234);
        let mut b = w.b;
        b.extend(e.sks[d[1]].r.sign(&h));
        b.extend(e.sks[d[2]].r.sign(&h));
        let got = change_key::unwrap(|id: TritSlice<'_>| (sv(id) == l.id).then(|| (l.s.clone(), mss_pk(l.key.as_ref().unwrap()))), &mut start.0.clone(), &mut sl(&b));
        let want = e.sks[d[0]].r.pk() == e.sks[d[1]].r.pk() && e.sks[d[2]].r.pk() == e.sks[2].r.pk();
        ensure!(got.is_ok() == want, "change to key {} signed by {} and {} while 2 is trusted: {:?}", d[0], d[1], d[2], got.is_ok());
        cov.case(!want);
        if d[2] == 0 {
            // announce of key d0 signed by d1
            let mut r = start.1.clone();
            let mut w = Wr::new(&mut r);
            w.absorb(e.sks[d[0]].r.pk());
            w.absorb(&refm::put(0, 3));
            let h = {
                w.s.commit();
                w.s.squeeze(234)
            };
            let mut b = w.b;
            b.extend(e.sks[d[1]].r.sign(&h));
            let got = announce::unwrap(&mut start.0.clone(), &mut sl(&b)).is_ok();
            ensure!(got == (e.sks[d[0]].r.pk() == e.sks[d[1]].r.pk()), "announce of key {} signed by {}: {}", d[0], d[1], got);
            cov.case(d[0] != d[1]);
        }
        Ok(())
    });
}

pub fn c23(c: &Ctx) {
    let e = std_env(c);
    let e = &e;
    let cs = cases(c, e);
    let cs = &cs;
    let watch = |x: &Case, t: &[u8], sec: &Sec, f: &mut Fenced, cov: &mut Cov, oracle: bool| -> Result<bool, String> {
        let st = x.st();
        f.load(t);
        let b = f.behind(t.len(), BEHIND);
        let mut v = b;
        let mut s = x.start.0.clone();
        let (got, mem) = peak(|| read(&x.m, e, &st, sec, &mut s, &mut v));
        ensure!(mem < 600_000 + 8 * t.len(), "reading {} from {} trits takes {} bytes", x.name, t.len(), mem);
        ensure!(v.size() <= t.len(), "reading {} from {} trits leaves {}", x.name, t.len(), v.size());
        ensure!(tv_eq(b, t), "reading {} changes the buffer", x.name);
        if oracle {
            let mut r = x.start.1.clone();
            let mut rd = Rd::new(&mut r, t);
            let want = refr(&x.m, e, &st, sec, &mut rd);
            let left = rd.b.len();
            let show = || if t.len() > 240 { format!("{}..", s_(&t[..240])) } else { s_(t) };
            match (&got, &want) {
                (Ok(a), Some(b)) => {
                    ensure!(a == b, "reading {} from {} gives other contents than documented", x.name, show());
                    ensure!(v.size() == left, "reading {} from {} trits leaves {} instead of {}", x.name, t.len(), v.size(), left);
                    in_sync(&format!("sponge after reading {} from {} trits", x.name, t.len()), &s, &r)?;
                }
                (Err(_), None) => {}
                _ => return Err(format!("reading {} from {} trits {}: {:?}, by the documentation {}", x.name, t.len(), show(), got.as_ref().err(), if want.is_some() { "accepted" } else { "refused" })),
            }
        }
        cov.case(got.is_err());
        Ok(got.is_ok())
    };
    let watch = &watch;
    // every message cut at every trit
    let total: usize = cs.iter().map(|x| x.wire.len()).sum();
    let mut offs = vec![];
    for (k, x) in cs.iter().enumerate() {
        for p in 0..x.wire.len() {
            // after a complete first signature each read costs a verification
            if c.thorough || x.sigs.len() < 2 || p < x.sigs[1] || p % 16 == 0 || p + 300 > x.wire.len() {
                offs.push((k, p));
            }
        }
    }
    let _ = total;
    c.par("cut", offs.len() as u64, |i, cov| {
        let (k, p) = offs[i as usize];
        let x = &cs[k];
        let mut f = Fenced::new(p);
        let ok = watch(x, &x.wire[..p], &x.sec, &mut f, cov, false)?;
        ensure!(!ok, "{} cut after {} of {} trits is accepted", x.name, p, x.wire.len());
        cov.sample(|| format!("{} cut after {} of {} trits", x.name, p, x.wire.len()));
        Ok(())
    });
    // keyloads cut at every trit for readers of every entry and for none
    let kl = cs.iter().find(|x| matches!(x.m, Keyload { .. })).unwrap();
    c.par("cut-keyload", kl.wire.len() as u64 * 5, |i, cov| {
        let (p, k) = (i as usize / 5, i as usize % 5);
        if k >= 2 && !c.thorough && p % 8 != 0 && p > 1400 {
            return Ok(());
        }
        let mut sec = Sec::default();
        match k {
            0 | 1 => sec.psks = vec![kl.sec.psks[k].clone()],
            2 | 3 => sec.nsks = vec![kl.sec.nsks[k - 2].clone()],
            _ => {}
        }
        let mut f = Fenced::new(p);
        let ok = watch(kl, &kl.wire[..p], &sec, &mut f, cov, false)?;
        ensure!(!ok, "keyload cut after {} of {} trits is accepted", p, kl.wire.len());
        Ok(())
    });
    // every short buffer, alone and after a known link
    let d = c.q(8u32, 10);
    c.par("short", 3u64.pow(d), |i, cov| {
        let mut f = Fenced::new(600);
        let t: T = (0..d).map(|j| (i / 3u64.pow(j) % 3) as u8).collect();
        for k in 0..=d {
            if i / 3u64.pow(k) != 0 {
                continue;
            }
            for x in cs {
                watch(x, &t[..k as usize], &x.sec, &mut f, cov, true)?;
                let mut y = x.l.id.clone();
                if matches!(x.m, Keyload { .. }) {
                    y.extend(pat(3, 81));
                }
                y.extend(&t[..k as usize]);
                watch(x, &y, &x.sec, &mut f, cov, true)?;
            }
        }
        Ok(())
    });
    // constant and irregular buffers of many lengths, alone and after a known link
    let lens: Vec<usize> = (0..c.q(500, 1500)).step_by(c.q(3, 1)).chain([9216, 9297, 9543, 9600, 13140, 13383, 13500, 18432, 18756, 22600, 27000]).collect();
    c.par("fillings", (lens.len() * cs.len()) as u64, |i, cov| {
        let (x, n) = (&cs[i as usize % cs.len()], lens[i as usize / cs.len()]);
        let mut f = Fenced::new(n + 200);
        for k in 0..c.q(7, 14) {
            let t = fill(k, n);
            watch(x, &t, &x.sec, &mut f, cov, true)?;
            let mut y = x.l.id.clone();
            y.extend(&t);
            watch(x, &y, &x.sec, &mut f, cov, true)?;
        }
        Ok(())
    });
    // claimed sizes: payloads in clear and masked
    let liars: Vec<i128> = {
        let mut v: Vec<i128> = (0..45).chain([364, 365, 9841, 9842]).collect();
        for k in 4..=13 {
            v.extend((-1..2).map(|d| (27i128.pow(k) - 1) / 2 + d));
        }
        for k in [31, 32, 40, 60] {
            v.extend((-1..2).flat_map(|d| [(1i128 << k) + d, (1i128 << k) / 3 + d, (1i128 << k) * 2 / 3 + d]));
        }
        v.extend((0..3).flat_map(|d| [SIZE_MAX - d, SIZE_MAX / 3 + d, SIZE_MAX / 324 + d, (1i128 << 63) / 324 + d, (1i128 << 63) / 9297 + d, (1i128 << 62) / 324 + d]));
        for m in [81i128, 243, 324, 9216, 9297] {
            v.extend((-1..2).flat_map(|d| [(1i128 << 64) / m + d, (1i128 << 63) / m + d]));
        }
        v.retain(|x| (0..=SIZE_MAX).contains(x));
        v.sort();
        v.dedup();
        v
    };
    let pay: Vec<&Case> = cs.iter().filter(|x| matches!(x.m, M::Signed { .. } | M::Tagged { .. })).collect();
    c.par("payload-sizes", liars.len() as u64 * pay.len() as u64, |i, cov| {
        let x = pay[i as usize % pay.len()];
        let n = liars[i as usize / pay.len()];
        let head = refm::size_enc(n);
        for have in [0usize, 1, 2, 3, 30, 59, 60, 61, 90, 100, 120, 243, 300, 13140 + 18 + 100] {
            for masked in [false, true] {
                let mut r = x.start.1.clone();
                let mut w = Wr::new(&mut r);
                w.join(&x.l.id, &mut x.l.r.clone());
                if masked {
                    w.absorb_trytes(&pat(1, 9));
                    w.mask(&head);
                } else {
                    w.absorb(&head);
                }
                let mut t = w.b;
                t.extend(pat(have as u64, have));
                let mut f = Fenced::new(t.len());
                watch(x, &t, &x.sec, &mut f, cov, true)?;
            }
        }
        Ok(())
    });
    // sizes with malformed heads and digits in every size field of a message
    c.par("size-heads", 27 * 27 * 3, |i, cov| {
        let d = mixed(i, &[27, 27, 3]);
        let mut head = refm::put(d[0] as i128 - 13, 3);
        head.extend(refm::put(d[1] as i128 - 13, 3));
        head.extend([vec![0; 60], vec![1; 60], pat(4, 60)][d[2]].clone());
        for x in &pay {
            for masked in [false, true] {
                let mut r = x.start.1.clone();
                let mut w = Wr::new(&mut r);
                w.join(&x.l.id, &mut x.l.r.clone());
                if masked {
                    w.absorb_trytes(&[]);
                    w.mask(&head);
                } else {
                    w.absorb(&head);
                }
                let t = w.b;
                let mut f = Fenced::new(t.len());
                watch(x, &t, &x.sec, &mut f, cov, true)?;
            }
        }
        Ok(())
    });
    // claimed repetition counts in a keyload, for readers of any entry and of none
    let secs: Vec<Sec> = {
        let mut v = vec![Sec::default()];
        for k in 0..2 {
            v.push(Sec { psks: vec![kl.sec.psks[k].clone()], ..Sec::default() });
            v.push(Sec { nsks: vec![kl.sec.nsks[k].clone()], ..Sec::default() });
        }
        v.push(kl.sec.clone());
        v
    };
    c.par("counts", liars.len() as u64 * 2, |i, cov| {
        let (n, second) = (liars[i as usize / 2], i % 2 == 1);
        // the genuine keyload with one of its counts replaced, and the same cut or extended by entries
        let k1 = 162;
        let body1 = k1 + 6..k1 + 6 + 2 * 324;
        let k2 = body1.end;
        let mut t = kl.wire[..k1].to_vec();
        if second {
            t = kl.wire[..k2].to_vec();
        }
        t.extend(refm::size_enc(n));
        t.extend(&kl.wire[if second { k2 + 6 } else { k1 + 6 }..]);
        for (cut, more) in [(0usize, 0usize), (1, 0), (9297, 0), (9296, 0), (2 * 9297, 0), (0, 324), (0, 323), (0, 9297), (0, 9297 * 2 + 100)] {
            let mut y = t[..t.len() - cut].to_vec();
            y.extend(pat(5, more));
            let mut f = Fenced::new(y.len());
            for sec in &secs {
                watch(kl, &y, sec, &mut f, cov, true)?;
            }
        }
        // counts with nothing behind them
        for more in [0usize, 1, 80, 81, 82, 242, 243, 323, 324, 325, 648, 9216, 9297] {
            let mut y = if second { kl.wire[..k1].iter().copied().chain(refm::size_enc(0)).collect() } else { kl.wire[..k1].to_vec() };
            y.extend(refm::size_enc(n));
            y.extend(fill(3, more));
            let mut f = Fenced::new(y.len());
            for sec in &secs {
                watch(kl, &y, sec, &mut f, cov, true)?;
            }
        }
        Ok(())
    });
    c.par("count-heads", 27 * 27, |i, cov| {
        let d = mixed(i, &[27, 27]);
        for second in [false, true] {
            let mut y = kl.wire[..162].to_vec();
            if second {
                y.extend(refm::size_enc(0));
            }
            y.extend(refm::put(d[0] as i128 - 13, 3));
            y.extend(refm::put(d[1] as i128 - 13, 3));
            y.extend(fill(i % 5, 700));
            let mut f = Fenced::new(y.len());
            for sec in &secs {
                watch(kl, &y, sec, &mut f, cov, true)?;
            }
        }
        Ok(())
    });
    // every tag value of the optional key, with and without one
    c.par("one-of", 27, |i, cov| {
        for x in cs.iter().filter(|x| matches!(x.m, Announce { .. })) {
            for n in [x.wire.len(), x.wire.len() - 9216.min(x.wire.len() - 246), 246, 9462, 9461] {
                let mut t = x.wire.clone();
                t[243..246].copy_from_slice(&refm::put(i as i128 - 13, 3));
                t.resize(n.max(246), 1);
                let mut f = Fenced::new(t.len());
                watch(x, &t, &x.sec, &mut f, cov, true)?;
            }
        }
        Ok(())
    });
    // signature headers claiming every height
    c.par("signatures", 81 * 3, |i, cov| {
        for x in cs.iter().filter(|x| !x.sigs.is_empty()) {
            let mut t = x.wire.clone();
            let p = x.sigs[0];
            t[p..p + 4].copy_from_slice(&refm::put(i as i128 % 81 - 40, 4));
            if i >= 81 {
                t[p + 4..p + 18].copy_from_slice(&refm::put([0, 2391484][i as usize / 81 - 1], 14));
            }
            let mut f = Fenced::new(t.len());
            watch(x, &t, &x.sec, &mut f, cov, true)?;
        }
        Ok(())
    });
    // altered capsules and keys: one trit in each coefficient
    c.par("capsules", c.q(300, 3000), |i, cov| {
        for x in cs.iter().filter(|x| matches!(x.m, Subscribe { .. } | Keyload { .. } | Announce { ntru: Some(_), .. })) {
            let mut t = x.wire.clone();
            let n = t.len();
            let p = (i as usize * n / c.q(300, 3000) + i as usize % 5) % n;
            t[p] = (t[p] + 1 + i as u8 % 2) % 3;
            let mut f = Fenced::new(t.len());
            for sec in secs.iter().skip(1) {
                let sec = if matches!(x.m, Keyload { .. }) { sec } else { &x.sec };
                watch(x, &t, sec, &mut f, cov, true)?;
                if !matches!(x.m, Keyload { .. }) {
                    break;
                }
            }
        }
        Ok(())
    });
    // headers
    let hw = c.setup("header", || headed(&str_trits("MAM9CHANNEL9ANNOUNCE"), &pat(1, 243), &pat(2, 81)).unwrap().0);
    let hwatch = |t: &[u8], cov: &mut Cov| -> Result<bool, String> {
        let mut f = Fenced::new(t.len());
        let b = f.load(t);
        let mut v = sl(b);
        let mut s = Spongos::init();
        let (a, m) = (appinst(&pat(1, 243)), msgid(&pat(2, 81)));
        let (got, mem) = peak(|| header::unwrap(&a, &m, &mut s, &mut v));
        ensure!(mem < 100_000 + 8 * t.len(), "reading a header from {} trits takes {} bytes", t.len(), mem);
        let mut r = Sp::new();
        let mut rd = Rd::new(&mut r, t);
        let want = (|| {
            if rd.absorb(3)? != refm::put(1, 3) {
                return None;
            }
            rd.absorb_trytes()
        })();
        let left = rd.b.len();
        ensure!(got.as_ref().ok().map(|x| tv(&x.0)) == want, "reading a header from {} trits {}", t.len(), s_(&t[..t.len().min(100)]));
        if want.is_some() {
            ensure!(v.size() == left, "reading a header leaves {} instead of {}", v.size(), left);
        }
        cov.case(got.is_err());
        Ok(got.is_ok())
    };
    c.par("header-cut", hw.len() as u64, |i, cov| {
        ensure!(!hwatch(&hw[..i as usize], cov)?, "header cut after {} trits is accepted", i);
        Ok(())
    });
    let dh = c.q(10u32, 13);
    c.par("header-short", 3u64.pow(dh), |i, cov| {
        let t: T = (0..dh).map(|j| (i / 3u64.pow(j) % 3) as u8).collect();
        hwatch(&t, cov)?;
        let mut y = vec![1, 0, 0];
        y.extend(&t);
        hwatch(&y, cov)?;
        Ok(())
    });
    c.par("header-sizes", liars.len() as u64, |i, cov| {
        for have in 0..300 {
            let mut t = vec![1, 0, 0];
            t.extend(refm::size_enc(liars[i as usize]));
            t.extend(pat(i, have));
            hwatch(&t, cov)?;
        }
        Ok(())
    });
}
fn s_(t: &[u8]) -> String {
    crate::util::s(t)
}

// ------------------------------------------------------------------ C24

/// Every ordered choice from `0..n`.
fn orders(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    let mut i = 0;
    while i < v.len() {
        for k in 0..n {
            if !v[i].contains(&k) {
                let mut x = v[i].clone();
                x.push(k);
                v.push(x);
            }
        }
        i += 1;
    }
    v
}

pub fn c24(c: &Ctx) {
    let (np, nn) = c.q((4usize, 3usize), (5, 3));
    let e = Env::new(c, &[], nn as u64 + 2);
    let e = &e;
    let (op, on) = (orders(np), orders(nn));
    let ls = links();
    let load = |psks: &[usize], pks: &[usize], k: u64| -> Result<(M, Ent, (Spongos, Sp), T, Spongos), String> {
        let m = Keyload { psks: psks.to_vec(), pks: pks.to_vec(), key: fill(k, 243), nonce: fill(k / 3, 81) };
        let l = ls[k as usize % ls.len()].clone();
        let start = pair(k % 5, (k as usize * 53) % 500);
        let mut w = start.0.clone();
        let wire = written(m.size(e), |b| m.write(e, &l, &mut w, b))?;
        Ok((m, l, start, wire, w))
    };
    let load = &load;
    let go = |m: &M, l: &Ent, start: &(Spongos, Sp), wire: &T, sec: &Sec| {
        let mut s = start.0.clone();
        let mut t = wire.clone();
        t.extend(pat(1, 200));
        let mut b = sl(&t);
        let r = read(m, e, &[link(70, 3), l.clone()], sec, &mut s, &mut b);
        (r, s, b.size())
    };
    let go = &go;
    // every list of recipients in every order, read with every set of secrets
    let total = (op.len() * on.len()) as u64;
    c.par("recipients", total, |i, cov| {
        let (ps, ns) = (&op[i as usize % op.len()], &on[i as usize / op.len()]);
        let (m, l, start, wire, w) = load(ps, ns, i)?;
        for set in 0..1u32 << (np + nn + 1) {
            let mut sec = Sec::default();
            for k in 0..np {
                if set >> k & 1 == 1 {
                    sec.psks.push(e.psks[k].clone());
                }
            }
            for k in 0..nn {
                if set >> (np + k) & 1 == 1 {
                    sec.nsks.push((e.pkid(k), k));
                }
            }
            // secrets that nobody listed
            if set >> (np + nn) == 1 {
                sec.psks.push(e.psks[40].clone());
                sec.nsks.push((e.pkid(nn), nn));
            }
            let listed = ps.iter().any(|k| set >> k & 1 == 1) || ns.iter().any(|k| set >> (np + k) & 1 == 1);
            let (r, s, left) = go(&m, &l, &start, &wire, &sec);
            if listed {
                ensure!(r.is_ok(), "keyload for {:?} and {:?} read with secrets {:b}: {:?}", ps, ns, set, r);
                same(&format!("sponge after the keyload for {:?} and {:?} with secrets {:b}", ps, ns, set), &tag(&s), &tag(&w))?;
                ensure!(left == 200, "keyload for {:?} and {:?} read with secrets {:b}: {} trits left instead of 200", ps, ns, set, left);
            } else {
                ensure!(r.is_err(), "keyload for {:?} and {:?} is accepted with secrets {:b}", ps, ns, set);
            }
            cov.case(listed);
        }
        cov.sample(|| format!("keyload for {:?} and {:?} with every set of secrets", ps, ns));
        Ok(())
    });
    // a wrong secret under a listed identifier
    c.par("wrong", total, |i, cov| {
        let (ps, ns) = (&op[i as usize % op.len()], &on[i as usize / op.len()]);
        let (m, l, start, wire, w) = load(ps, ns, i)?;
        let author = tag(&w);
        let check = |sec: &Sec, what: &str| -> Result<(), String> {
            let (r, s, _) = go(&m, &l, &start, &wire, sec);
            ensure!(r.is_err() || tag(&s) != author, "keyload for {:?} and {:?} gives its key away to {}", ps, ns, what);
            Ok(())
        };
        for &k in ps {
            for j in (0..45).filter(|&j| j != k).take(6) {
                check(&Sec { psks: vec![(e.psks[k].0.clone(), e.psks[j].1.clone())], ..Sec::default() }, "another shared key")?;
                cov.case(true);
            }
            for p in [0, 100, 242] {
                let mut x = e.psks[k].1.clone();
                x[p] = (x[p] + 1) % 3;
                check(&Sec { psks: vec![(e.psks[k].0.clone(), x)], ..Sec::default() }, "a shared key one trit away")?;
                cov.case(true);
            }
            // an identifier one trit away with the right secret is not listed
            let mut x = e.psks[k].0.clone();
            x[80] = (x[80] + 1) % 3;
            let (r, ..) = go(&m, &l, &start, &wire, &Sec { psks: vec![(x, e.psks[k].1.clone())], ..Sec::default() });
            ensure!(r.is_err(), "an identifier one trit away from {} is accepted", k);
        }
        for &k in ns {
            for j in (0..nn + 2).filter(|&j| j != k) {
                let sec = Sec { nsks: vec![(e.pkid(k), j)], ..Sec::default() };
                let (r, ..) = go(&m, &l, &start, &wire, &sec);
                ensure!(r.is_err(), "keyload for {:?} and {:?}: private key {} opens the entry of {}", ps, ns, j, k);
                check(&sec, "another private key")?;
                cov.case(true);
            }
        }
        Ok(())
    });
    // secrets and identifiers one trit away, the genuine ones first
    c.par("one-trit-away", 243 * 4, |i, cov| {
        let (p, which) = (i as usize / 4, i % 4);
        let (ps, ns): (&[usize], &[usize]) = [(&[0][..], &[][..]), (&[2, 0, 1], &[0]), (&[1, 0], &[]), (&[], &[1, 0])][which as usize];
        let (m, l, start, wire, w) = load(ps, ns, which)?;
        let author = tag(&w);
        let sec = match ps.first() {
            Some(_) => Sec { psks: vec![e.psks[0].clone()], ..Sec::default() },
            None => Sec { nsks: vec![(e.pkid(0), 0)], ..Sec::default() },
        };
        let (r, s, _) = go(&m, &l, &start, &wire, &sec);
        ensure!(r.is_ok() && tag(&s) == author, "keyload for {:?} and {:?} is not read by a recipient", ps, ns);
        for d in 1..3 {
            if !ps.is_empty() {
                let mut x = sec.clone();
                x.psks[0].1[p] = (x.psks[0].1[p] + d) % 3;
                let (r, s, _) = go(&m, &l, &start, &wire, &x);
                ensure!(r.is_err() || tag(&s) != author, "keyload for {:?} and {:?} is read with trit {} of the shared key changed", ps, ns, p);
                cov.case(true);
            }
            if p < 81 {
                let mut x = sec.clone();
                let id = if ps.is_empty() { &mut x.nsks[0].0 } else { &mut x.psks[0].0 };
                id[p] = (id[p] + d) % 3;
                let (r, ..) = go(&m, &l, &start, &wire, &x);
                ensure!(r.is_err(), "keyload for {:?} and {:?} is read with trit {} of the identifier changed", ps, ns, p);
                cov.case(true);
            }
        }
        Ok(())
    });
    // many recipients: each of them alone, at every place
    let many: Vec<(usize, usize)> = vec![(13, 0), (14, 0), (15, 1), (40, 0), (0, 5), (5, 13), (3, 14)];
    c.par("many", many.len() as u64, |i, cov| {
        let (a, b) = many[i as usize];
        let ps: Vec<usize> = (0..a).rev().collect();
        let n = e.kps.len();
        let ns: Vec<usize> = (0..b).map(|k| k % n).collect();
        let (m, l, start, wire, w) = load(&ps, &ns, i)?;
        let secs = ps
            .iter()
            .map(|&k| Sec { psks: vec![e.psks[k].clone()], ..Sec::default() })
            .chain((0..n.min(b)).map(|k| Sec { nsks: vec![(e.pkid(k), k)], ..Sec::default() }));
        for (k, sec) in secs.enumerate() {
            let (r, s, left) = go(&m, &l, &start, &wire, &sec);
            ensure!(r.is_ok() && left == 200, "recipient {} of {} and {}: {:?}, {} trits left", k, a, b, r, left);
            same(&format!("sponge of recipient {} of {} and {}", k, a, b), &tag(&s), &tag(&w))?;
            cov.case(true);
        }
        let none = Sec { psks: vec![e.psks[44].clone()], ..Sec::default() };
        ensure!(go(&m, &l, &start, &wire, &none).0.is_err(), "keyload for {} and {} is accepted without a secret", a, b);
        ensure!(go(&m, &l, &start, &wire, &Sec::default()).0.is_err(), "keyload for {} and {} is accepted without any secret", a, b);
        Ok(())
    });
    // one recipient at each place among many others, with counts of one, two and three trytes
    let mut cnt: Vec<(bool, usize)> = [27usize, 28, 40, 41, 81, 82, 121, 122, 243, 244, 364, 365, 366].iter().map(|&n| (false, n)).collect();
    cnt.extend([13usize, 14, 15, 26, 27, 28, 29, 40, 41, 42, 54, 55].iter().map(|&n| (true, n)));
    if c.thorough {
        cnt.extend([(false, 729), (false, 730), (false, 1094), (true, 81), (true, 82), (true, 121), (true, 122), (true, 365)]);
    }
    let mut places = vec![];
    for &(ntru, n) in &cnt {
        for p in (0..n).filter(|&p| !ntru || n < 100 || p % 40 == 0 || p + 3 > n) {
            places.push((ntru, n, p));
        }
    }
    c.par("places", places.len() as u64, |i, cov| {
        // costly and cheap ones by turns
        ensure!(places.len() % 1009 != 0, "harness");
        let (ntru, n, p) = places[(i * 1009 % places.len() as u64) as usize];
        let mut to = vec![0; n];
        to[p] = 1;
        let (psks, pks) = if ntru { (vec![], to) } else { (to, vec![]) };
        let (m, l, start, wire, w) = load(&psks, &pks, i)?;
        let sec = |k: usize| {
            if ntru {
                Sec { nsks: vec![(e.pkid(k), k)], ..Sec::default() }
            } else {
                Sec { psks: vec![e.psks[k].clone()], ..Sec::default() }
            }
        };
        let (r, s, left) = go(&m, &l, &start, &wire, &sec(1));
        let kind = if ntru { "key" } else { "shared key" };
        ensure!(r.is_ok() && left == 200, "{} {} of {}: {:?}, {} trits left", kind, p, n, r.map(|_| ()), left);
        same(&format!("sponge of {} {} of {}", kind, p, n), &tag(&s), &tag(&w))?;
        ensure!(go(&m, &l, &start, &wire, &sec(2)).0.is_err(), "keyload for {} recipients is accepted by another", n);
        cov.cases(2);
        Ok(())
    });
    // recipients listed more than once
    c.par("repeated", 27, |i, cov| {
        let d = mixed(i, &[3, 3, 3]);
        let (m, l, start, wire, w) = load(&d, &[d[0] % 2, d[0] % 2, d[1] % 2], i)?;
        for k in 0..3 {
            let sec = Sec { psks: vec![e.psks[k].clone()], ..Sec::default() };
            let (r, s, left) = go(&m, &l, &start, &wire, &sec);
            ensure!(r.is_ok() == d.contains(&k), "keyload for {:?} read by {}: {:?}", d, k, r);
            if r.is_ok() {
                ensure!(left == 200, "keyload for {:?} read by {} leaves {}", d, k, left);
                same("sponge", &tag(&s), &tag(&w))?;
            }
            cov.case(r.is_ok());
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C25

/// A step of a history: kind, the message it is linked to, the key that signs.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum A {
    Change(usize),
    /// Link and which key of the chain.
    Signed(usize, usize),
    Tagged(usize),
    /// Link and whether for the holder of the shared key or of the private key.
    Load(usize, bool),
    Sub(usize),
    Unsub(usize),
}
/// What is published: the kind of each message, announce first.
type Hist = Vec<A>;

/// Chain key that message `i` (0: announce) vouches for.
fn key_of(h: &Hist, i: usize) -> Option<usize> {
    if i == 0 {
        return Some(0);
    }
    match h[i - 1] {
        A::Change(_) => Some(h[..i].iter().filter(|a| matches!(a, A::Change(_))).count()),
        _ => None,
    }
}
fn actions(h: &Hist, maxkeys: usize) -> Vec<A> {
    let n = h.len() + 1;
    let mut v = vec![];
    let keys: Vec<usize> = (0..n).filter_map(|i| key_of(h, i)).collect();
    for i in 0..n {
        if key_of(h, i).is_some() && keys.len() < maxkeys {
            v.push(A::Change(i));
        }
        for &k in &keys {
            v.push(A::Signed(i, k));
        }
        v.push(A::Tagged(i));
        v.push(A::Load(i, false));
        v.push(A::Load(i, true));
        if i == 0 {
            v.push(A::Sub(i));
        }
        if i > 0 && matches!(h[i - 1], A::Sub(_)) {
            v.push(A::Unsub(i));
        }
    }
    v
}

/// Both sides after some messages.
#[derive(Clone)]
struct World {
    h: Hist,
    /// As the author keeps them, and as the reader does.
    author: Vec<Ent>,
    reader: Vec<Ent>,
    used: Vec<usize>,
    trusted: Vec<T>,
}
const PER: usize = 4;

/// Keys of the chain come as `PER` entries each, one for every number of signatures made.
struct Play {
    e: Env,
    app: T,
}
impl Play {
    fn sk(&self, k: usize, w: &mut World) -> usize {
        let n = w.used[k];
        w.used[k] += 1;
        k * PER + n % PER
    }
    /// The author's message, complete with its header, and its identifier.
    fn publish(&self, w: &mut World, a: Option<A>) -> Result<(M, usize, T, T), String> {
        let n = w.author.len();
        let id = pat(3000 + n as u64, 81);
        let (m, link) = match a {
            None => (Announce { sk: self.sk(0, w), ntru: Some(0) }, 0),
            Some(A::Change(i)) => {
                let new = w.trusted.len();
                let old = key_of(&w.h, i).unwrap();
                (Change { sk: self.sk(new, w), linked: self.sk(old, w) }, i)
            }
            Some(A::Signed(i, k)) => (M::Signed { p: pat(n as u64, 3 * n), m: pat(n as u64 + 50, 30), sk: self.sk(k, w) }, i),
            Some(A::Tagged(i)) => (M::Tagged { p: pat(n as u64, 30), m: pat(n as u64 + 60, 60 * n) }, i),
            Some(A::Load(i, ntru)) => {
                let (psks, pks) = if ntru { (vec![3], vec![2, 1]) } else { (vec![3, 0], vec![2]) };
                (Keyload { psks, pks, key: pat(n as u64 + 70, 243), nonce: pat(n as u64, 81) }, i)
            }
            Some(A::Sub(i)) => (Subscribe { sub: 1 + n % 2, ch: 0, nonce: pat(n as u64, 81) }, i),
            Some(A::Unsub(i)) => (Unsubscribe, i),
        };
        let typ = str_trits(m.typ());
        let mut s = Spongos::init();
        let hn = header::sizeof(typ.len() / 3);
        let dummy = Ent { id: vec![], s: Spongos::init(), r: Sp::new(), key: None, npk: None };
        let l = w.author.get(link).unwrap_or(&dummy).clone();
        let wire = written(hn + m.size(&self.e), |b| {
            header::wrap(&pb3::Trytes(tr(&typ)), &appinst(&self.app), &msgid(&id), &mut s, b);
            m.write(&self.e, &l, &mut s, b);
        })?;
        let npk = if let Subscribe { sub, .. } = &m { Some(*sub) } else { None };
        let key = match &m {
            Announce { sk, .. } | Change { sk, .. } => Some(self.e.sks[*sk].r.pk().clone()),
            _ => None,
        };
        w.author.push(Ent { id: id.clone(), s, r: Sp::new(), key, npk });
        Ok((m, link, id, wire))
    }
    fn secrets(&self) -> Sec {
        Sec { psks: vec![self.e.psks[0].clone()], nsks: vec![(self.e.pkid(1), 1)], ch: 0, pk: None }
    }
    /// A reader that knows `store` and trusts `trusted`: what it makes of a message, with its state.
    fn receive(&self, m: &M, store: &[Ent], trusted: &[T], sec: &Sec, id: &T, wire: &[u8]) -> Result<(V, Spongos), String> {
        let mut s = Spongos::init();
        let mut b = sl(wire);
        let typ = header::unwrap(&appinst(&self.app), &msgid(id), &mut s, &mut b).map_err(|x| format!("header: {:?}", x))?;
        if tv(&typ.0) != str_trits(m.typ()) {
            return Err("type".into());
        }
        let v = read(m, &self.e, store, sec, &mut s, &mut b).map_err(|x| format!("{:?}", x))?;
        if b.size() != 0 {
            return Err(format!("{} trits left", b.size()));
        }
        if let V::Signed(Some(k), ..) = &v {
            if !trusted.contains(k) {
                return Err("not trusted".into());
            }
        }
        Ok((v, s))
    }
    fn step(&self, w0: &World, a: Option<A>, neg: bool, cov: &mut Cov) -> Result<World, String> {
        let mut w = w0.clone();
        let (m, l, id, wire) = self.publish(&mut w, a)?;
        let name = format!("{:?} after {:?}", a, w0.h);
        let sec = self.secrets();
        let (v, s) = self.receive(&m, &w.reader, &w.trusted, &sec, &id, &wire).map_err(|x| format!("{} is rejected: {}", name, x))?;
        let lent = w.author.get(l).cloned().unwrap();
        let want = m.value(&self.e, &lent, false);
        ensure!(v == want, "{} is read with other contents", name);
        let mine = tag(&s);
        same(&format!("reader's state after {}", name), &mine, &tag(&w.author.last().unwrap().s))?;
        cov.trans += 1;
        cov.state(&mine);
        if neg {
            self.refuse(&w, &m, l, &id, &wire, &sec, &name, cov)?;
        }
        let (mut key, mut npk) = (None, None);
        match &v {
            V::Announced(k, _) | V::Changed(k) => {
                w.trusted.push(k.clone());
                key = Some(k.clone());
            }
            V::Subscribed(p) => npk = (0..3).find(|&i| self.e.kps[i].r.pk == *p),
            _ => {}
        }
        w.reader.push(Ent { id, s, r: Sp::new(), key, npk });
        if let Some(a) = a {
            w.h.push(a);
        }
        Ok(w)
    }
    /// Everything that must not pass instead of this message.
    fn refuse(&self, w: &World, m: &M, l: usize, id: &T, wire: &T, sec: &Sec, name: &str, cov: &mut Cov) -> Result<(), String> {
        let author = tag(&w.author.last().unwrap().s);
        let hn = header::sizeof(m.typ().len());
        // rejected; a keyload, which is not authenticated, must at least lead elsewhere
        let bad = |m: &M, store: &[Ent], trusted: &[T], sec: &Sec, id: &T, wire: &[u8], what: &str| -> Result<(), String> {
            if let Ok((v, s)) = self.receive(m, store, trusted, sec, id, wire) {
                ensure!(matches!(m, Keyload { .. }) && v == V::Loaded && tag(&s) != author, "{} is accepted {}", name, what);
            }
            Ok(())
        };
        if !matches!(m, Announce { .. }) {
            // every other link
            for (j, x) in w.reader.iter().enumerate() {
                if j == l {
                    continue;
                }
                let mut y = wire.clone();
                y[hn..hn + 81].copy_from_slice(&x.id);
                bad(m, &w.reader, &w.trusted, sec, id, &y, &format!("with a link to message {} instead of {}", j, l))?;
                // and the right link kept as another message, with what is known of the right one
                let mut st = w.reader.clone();
                st[l].s = x.s.clone();
                bad(m, &st, &w.trusted, sec, id, wire, &format!("from the state of message {} instead of {}", j, l))?;
                cov.trans += 2;
            }
            // an unknown link
            let mut y = wire.clone();
            y[hn..hn + 81].copy_from_slice(&pat(3999, 81));
            bad(m, &w.reader, &w.trusted, sec, id, &y, "with an unknown link")?;
            let mut st = w.reader.clone();
            st.remove(l);
            if let Ok(_) = self.receive(m, &st, &w.trusted, sec, id, wire) {
                return Err(format!("{} is accepted by a reader who has not seen message {}", name, l));
            }
            cov.trans += 2;
        }
        // under another identifier or application instance
        bad(m, &w.reader, &w.trusted, sec, &pat(3998, 81), wire, "under another message identifier")?;
        cov.trans += 1;
        match m {
            M::Signed { sk, p, m: mm } => {
                // verified against each key, trusted or not
                for k in 0..self.e.sks.len() / PER {
                    let mut x = sec.clone();
                    x.pk = Some(self.e.sks[k * PER].r.pk().clone());
                    let ok = self.receive(m, &w.reader, &w.trusted, &x, id, wire).is_ok();
                    ensure!(ok == (k == sk / PER), "{}: verification with key {} gives {}", name, k, ok);
                    cov.trans += 1;
                }
                // not trusting the signer
                let t: Vec<T> = w.trusted.iter().filter(|t| *t != self.e.sks[*sk].r.pk()).cloned().collect();
                bad(m, &w.reader, &t, sec, id, wire, "without trust in its key")?;
                // signed by a stranger
                let forged = M::Signed { p: p.clone(), m: mm.clone(), sk: self.e.sks.len() - 1 };
                self.forge(w, &forged, l, id, sec, name, cov)?;
            }
            Change { sk, linked } => {
                // another key linked: vouched for by a stranger, by the new key itself, by another key of the chain
                let last = self.e.sks.len() - 1;
                for by in [last, (sk / PER) * PER + 1].into_iter().chain((0..w.trusted.len()).map(|k| k * PER + 3)) {
                    if by / PER != linked / PER {
                        self.forge(w, &Change { sk: *sk, linked: by }, l, id, sec, name, cov)?;
                    }
                }
                // a stranger's key
                self.forge(w, &Change { sk: last, linked: last - 1 }, l, id, sec, name, cov)?;
                // the new key, signed by every other pair of keys than itself and the linked one
                let mut by = vec![*sk, *linked, last];
                by.extend((0..w.trusted.len()).filter(|k| *k != linked / PER).take(1).map(|k| k * PER + 2));
                for &a in &by {
                    for &b in &by {
                        if (a / PER, b / PER) != (sk / PER, linked / PER) {
                            self.forge_change(w, *sk, [a, b], l, id, sec, name, cov)?;
                        }
                    }
                }
            }
            Subscribe { .. } => {
                for ch in 1..3 {
                    let mut x = sec.clone();
                    x.ch = ch;
                    bad(m, &w.reader, &w.trusted, &x, id, wire, "by the holder of another private key")?;
                    cov.trans += 1;
                }
            }
            Keyload { .. } => {
                for x in [
                    Sec { psks: vec![(self.e.psks[0].0.clone(), self.e.psks[1].1.clone())], ..Sec::default() },
                    Sec { nsks: vec![(self.e.pkid(1), 0)], ..Sec::default() },
                    Sec { psks: vec![self.e.psks[1].clone()], nsks: vec![(self.e.pkid(0), 0)], ..Sec::default() },
                    Sec::default(),
                ] {
                    bad(m, &w.reader, &w.trusted, &x, id, wire, "without a listed secret")?;
                    cov.trans += 1;
                }
            }
            _ => {}
        }
        Ok(())
    }
    /// A message made by someone who knows the linked state but not the keys.
    fn forge(&self, w: &World, m: &M, l: usize, id: &T, sec: &Sec, name: &str, cov: &mut Cov) -> Result<(), String> {
        let typ = str_trits(m.typ());
        let mut s = Spongos::init();
        let wire = written(header::sizeof(typ.len() / 3) + m.size(&self.e), |b| {
            header::wrap(&pb3::Trytes(tr(&typ)), &appinst(&self.app), &msgid(id), &mut s, b);
            m.write(&self.e, &w.author[l], &mut s, b);
        })?;
        cov.trans += 1;
        ensure!(self.receive(m, &w.reader, &w.trusted, sec, id, &wire).is_err(), "instead of {}, {:?} is accepted", name, m);
        Ok(())
    }
    /// A change to key `new` that is signed by `by` instead.
    fn forge_change(&self, w: &World, new: usize, by: [usize; 2], l: usize, id: &T, sec: &Sec, name: &str, cov: &mut Cov) -> Result<(), String> {
        let m = Change { sk: new, linked: by[1] };
        let typ = str_trits(m.typ());
        let mut s = Spongos::init();
        let n = header::sizeof(typ.len() / 3) + 81 + 243 + by.iter().map(|&k| pb3::mssig::sizeof_mssig(&self.e.sks[k].sk)).sum::<usize>();
        let wire = written(n, |b| {
            header::wrap(&pb3::Trytes(tr(&typ)), &appinst(&self.app), &msgid(id), &mut s, b);
            let link = &w.author[l];
            pb3::join::wrap_join(sl(&link.id), &mut link.s.clone(), &mut s, b);
            pb3::Absorb::wrap_absorb(self.e.sks[new].sk.public_key(), &mut s, b);
            let h = pb3::mssig::squeeze_mss_hash(&mut s);
            for k in by {
                pb3::mssig::wrap_mssig(h.slice(), &self.e.sks[k].sk, &mut s, b);
            }
        })?;
        cov.trans += 1;
        ensure!(self.receive(&m, &w.reader, &w.trusted, sec, id, &wire).is_err(), "instead of {}, a change to key {} signed by {} and {} is accepted", name, new / PER, by[0] / PER, by[1] / PER);
        Ok(())
    }
    fn dfs(&self, w: &World, depth: usize, maxkeys: usize, negs: &dyn Fn(usize, A) -> bool, cov: &mut Cov) -> Result<(), String> {
        if depth == 0 {
            cov.traces += 1;
            return Ok(());
        }
        for a in actions(&w.h, maxkeys) {
            let n = self.step(w, Some(a), negs(depth, a), cov)?;
            self.dfs(&n, depth - 1, maxkeys, negs, cov)?;
        }
        Ok(())
    }
}

pub fn c25(c: &Ctx) {
    let maxkeys = 4usize;
    // chain keys 0..4 and one stranger, each after 0..3 signatures
    let ids: Vec<(u64, usize, usize)> = (0..5).flat_map(|k| (0..PER).map(move |n| (60 + k as u64, 2, n))).collect();
    let p = Play { e: Env::new(c, &ids, 3), app: pat(2999, 243) };
    let p = &p;
    let depth = c.q(3usize, 4);
    // prefixes of two steps, distributed
    let mut pre: Vec<Hist> = vec![vec![]];
    for _ in 0..2 {
        pre = pre.iter().flat_map(|h| actions(h, maxkeys).into_iter().map(move |a| [&h[..], &[a]].concat())).collect();
    }
    let start = World { h: vec![], author: vec![], reader: vec![], used: vec![0; 5], trusted: vec![] };
    let start = &start;
    c.par("histories", pre.len() as u64, |i, cov| {
        let mut w = p.step(start, None, i == 0, cov)?;
        for (k, &a) in pre[i as usize].iter().enumerate() {
            // each step's refusals once: when it is the last, or starts a new subtree
            let neg = k == 1 || pre[..i as usize].iter().all(|h| h[0] != a);
            w = p.step(&w, Some(a), neg, cov)?;
        }
        cov.sample(|| format!("every history of {} messages that starts with an announce and {:?}", depth + 1, pre[i as usize]));
        let negs = |left: usize, a: A| left >= 2 || c.thorough && matches!(a, A::Tagged(_) | A::Sub(_) | A::Unsub(_)) || !c.thorough;
        p.dfs(&w, depth - 2, maxkeys, &negs, cov)
    });
    // long chains of keys, signed packets with every key linked everywhere
    c.par("chains", 27, |i, cov| {
        let d = mixed(i, &[3, 3, 3]);
        let mut w = p.step(start, None, false, cov)?;
        let mut keyed = vec![0];
        for k in 0..3 {
            let a = A::Change(keyed[d[k] % keyed.len()]);
            w = p.step(&w, Some(a), true, cov)?;
            keyed.push(w.h.len());
        }
        for k in 0..4 {
            w = p.step(&w, Some(A::Signed(w.h.len() - k % 2, k)), k == d[0], cov)?;
            w = p.step(&w, Some(A::Tagged(w.h.len())), true, cov)?;
            w = p.step(&w, Some(A::Load(keyed[k], k % 2 == 0)), true, cov)?;
        }
        cov.traces += 1;
        Ok(())
    });
    // long channels: every kind of message again and again, linked to the last one or to the announcement
    c.par("long", 14, |i, cov| {
        let mut w = p.step(start, None, false, cov)?;
        for k in 0..c.q(300usize, 3000) {
            let l = if i % 2 == 0 { w.h.len() } else { 0 };
            let subs: Vec<usize> = (1..=w.h.len()).filter(|&j| matches!(w.h[j - 1], A::Sub(_))).collect();
            let kind = if i / 2 == 6 { k % 6 } else { i as usize / 2 };
            let a = match kind {
                0 => A::Tagged(l),
                1 => A::Load(l, false),
                2 => A::Load(l, true),
                3 => A::Sub(l),
                4 if k % 2 == 1 => A::Unsub(subs[k * 3 % subs.len()]),
                4 => A::Sub(l),
                5 if k < 3 => A::Signed(l, 0),
                _ => A::Tagged(l),
            };
            // what is kept of old messages does not matter to new ones
            w = p.step(&w, Some(a), false, cov)?;
        }
        cov.traces += 1;
        Ok(())
    });
    // several subscribers, unsubscribing in every order
    c.par("subscribers", 24, |i, cov| {
        let mut w = p.step(start, None, false, cov)?;
        let mut order = vec![];
        let mut pool: Vec<usize> = (1..=4).collect();
        let mut r = i as usize;
        for n in (1..=4).rev() {
            order.push(pool.remove(r % n));
            r /= n;
        }
        for _ in 0..4 {
            w = p.step(&w, Some(A::Sub(0)), true, cov)?;
        }
        for j in order {
            w = p.step(&w, Some(A::Unsub(j)), true, cov)?;
        }
        cov.traces += 1;
        Ok(())
    });
}

// ------------------------------------------------------------------ C26

pub fn c26(c: &Ctx) {
    let (app, id) = (pat(1, 243), pat(2, 81));
    let (app, id) = (&app, &id);
    let read = |app: &T, id: &T, t: &[u8]| {
        let mut s = Spongos::init();
        let mut b = sl(t);
        let r = header::unwrap(&appinst(app), &msgid(id), &mut s, &mut b);
        (r.map(|x| tv(&x.0)), s, b.size())
    };
    let read = &read;
    // types of every length
    let far = [9840u64, 9841, 9842, 21845, 21846, 65535, 65536, 88573];
    let ns = c.q(800, 10000);
    c.par("lengths", ns + far.len() as u64, |n, cov| {
        let n = if n < ns { n } else { far[(n - ns) as usize] };
        for k in 0..c.q(3, 5) {
            let typ = fill(n + k, 3 * n as usize);
            ensure!(header::sizeof(n as usize) == 3 + refm::size_enc(n as i128).len() + 3 * n as usize, "size of a header with a type of {}", n);
            let (app, id) = (fill(n / 2 + k, 243), fill(n / 3 + k, 81));
            let (wire, (s, _)) = headed(&typ, &app, &id)?;
            let mut t = wire.clone();
            t.extend(fill(k, n as usize % 20));
            let (got, r, left) = read(&app, &id, &t);
            ensure!(got == Ok(typ), "type of {} trytes is read as {:?}", n, got.map(|x| x.len()));
            ensure!(left == n as usize % 20, "header with a type of {} leaves {}", n, left);
            same("reader's state", &tag(&r), &tag(&s))?;
            cov.case(true);
        }
        Ok(())
    });
    let types = [announce::TYPE, change_key::TYPE, signed_packet::TYPE, tagged_packet::TYPE, keyload::TYPE, subscribe::TYPE, unsubscribe::TYPE];
    let want = [
        "MAM9CHANNEL9ANNOUNCE",
        "MAM9CHANNEL9CHANGEKEY",
        "MAM9SIGNEDPACKET",
        "MAM9TAGGEDPACKET",
        "MAM9KEYLOAD",
        "MAM9CHANNEL9SUBSCRIBE",
        "MAM9CHANNEL9UNSUBSCRIBE",
    ];
    // the types tell the messages apart
    c.par("types", 49, |i, cov| {
        let (a, b) = (i as usize % 7, i as usize / 7);
        ensure!(types[a] == want[a], "type {} is {}", want[a], types[a]);
        ensure!((types[a] == types[b]) == (a == b), "types {} and {}", types[a], types[b]);
        let t = Trits::from_str(types[a]).ok_or("a type is not a string of trytes")?;
        same("trits of the type", &tv(&t), &str_trits(want[a]))?;
        let (wire, _) = headed(&tv(&t), app, id)?;
        let (got, ..) = read(app, id, &wire);
        ensure!(got == Ok(str_trits(types[a])), "type {} is read otherwise", types[a]);
        cov.case(true);
        Ok(())
    });
    // every version
    c.par("versions", 27, |i, cov| {
        let v = i as i128 - 13;
        for n in [0usize, 1, 20, 300] {
            let (mut wire, _) = headed(&pat(n as u64, 3 * n), app, id)?;
            ensure!(wire[..3] == refm::put(1, 3)[..], "header starts with {}", s_(&wire[..3]));
            wire[..3].copy_from_slice(&refm::put(v, 3));
            let (got, ..) = read(app, id, &wire);
            ensure!(got.is_ok() == (v == 1), "version {} gives {:?}", v, got.is_ok());
            cov.case(v != 1);
        }
        Ok(())
    });
    // every altered trit of what the header binds: another state, and the next tag fails
    let ns = [0usize, 1, 20, 100];
    let total: u64 = ns.iter().map(|n| (243 + 81 + 30 + 3 * n) as u64 * 2).sum();
    c.par("trits", total, |i, cov| {
        let mut r = i as usize / 2;
        let add = 1 + (i % 2) as u8;
        let n = *ns.iter().find(|&&n| {
            let k = 243 + 81 + 30 + 3 * n;
            if r < k {
                true
            } else {
                r -= k;
                false
            }
        }).unwrap();
        let typ = pat(4, 3 * n);
        let (wire, (s0, _)) = headed(&typ, app, id)?;
        let (mut a, mut m, mut w) = (app.clone(), id.clone(), wire.clone());
        match r {
            0..=242 => a[r] = (a[r] + add) % 3,
            243..=323 => m[r - 243] = (m[r - 243] + add) % 3,
            _ => {
                let k = (r - 324).min(w.len() - 1);
                w[k] = (w[k] + add) % 3;
            }
        }
        let (got, mut s, _) = read(&a, &m, &w);
        if let Ok(t) = got {
            ensure!(r < 324 || t != typ, "an altered header is read with the same type");
            ensure!(tag(&s) != tag(&s0), "state after a header with trit {} altered (application instance, message id, header in this order)", r);
            // what follows is refused
            let e = link(5, 50);
            let x = M::Tagged { p: pat(1, 9), m: pat(2, 30) };
            let env = Env { sks: vec![], kps: vec![], psks: vec![], prng: pat(1, 243) };
            let tw = written(x.size(&env), |b| x.write(&env, &e, &mut s0.clone(), b))?;
            ensure!(crate::c_msg::read(&x, &env, &[e], &Sec::default(), &mut s, &mut sl(&tw)).is_err(), "a tagged packet is accepted after a header with trit {} altered", r);
        }
        cov.case(true);
        cov.sample(|| format!("header with a type of {} trytes and trit {} altered", n, r));
        Ok(())
    });
    // exchanged application instances and identifiers; truncation
    c.par("exchanged", 40, |i, cov| {
        let (a, b) = (fill(i, 243), fill(i + 1, 243));
        let (m, n) = (fill(i, 81), fill(i + 1, 81));
        let typ = pat(i, 3 * i as usize);
        let (wire, (s, _)) = headed(&typ, &a, &m)?;
        for (x, y) in [(&a, &n), (&b, &m), (&b, &n)] {
            let (got, r, _) = read(x, y, &wire);
            ensure!(got == Ok(typ.clone()) && tag(&r) != tag(&s), "another instance or identifier leads to the same state");
            cov.case(true);
        }
        for k in 0..wire.len() {
            ensure!(read(&a, &m, &wire[..k]).0.is_err(), "header cut after {} trits is accepted", k);
            cov.case(true);
        }
        Ok(())
    });
    // signatures after a header of another instance
    let env = Env::new(c, &[(1, 0, 0), (2, 1, 1)], 1);
    c.par("signed-after", 243 + 81, |i, cov| {
        if !c.thorough && i % 3 != 0 {
            return Ok(());
        }
        let typ = str_trits(announce::TYPE);
        let (wire, (mut s, _)) = headed(&typ, app, id)?;
        let x = Announce { sk: i as usize % 2, ntru: None };
        let tw = written(x.size(&env), |b| x.write(&env, &link(1, 1), &mut s, b))?;
        let (mut a, mut m) = (app.clone(), id.clone());
        match i as usize {
            k @ 0..=242 => a[k] = (a[k] + 1) % 3,
            k => m[k - 243] = (m[k - 243] + 1) % 3,
        }
        let (_, mut r, _) = read(&a, &m, &wire);
        ensure!(announce::unwrap(&mut r, &mut sl(&tw)).is_err(), "an announce is accepted under another instance or identifier (trit {})", i);
        let (_, mut r, _) = read(app, id, &wire);
        ensure!(announce::unwrap(&mut r, &mut sl(&tw)).is_ok(), "an announce is refused after its own header");
        cov.case(true);
        Ok(())
    });
    let _: Option<&Ntru> = None;
}
