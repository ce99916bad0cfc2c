//! C07 size fields, C08 field sequences, C09 decoding of fields from any buffer.

use crate::c_ntru::{kp, Kp};
use crate::ensure;
use crate::env::*;
use crate::refm::{self, Sp, Wr, SIZE_MAX, T};
use crate::rt::{peak, Cov, Ctx, Fenced, BEHIND};
use crate::util::*;
use iota_mam::app::core::MsgId;
use iota_mam::pb3::{self, Absorb, Mask};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::{mss, ntru};

// ------------------------------------------------------------------ C07

fn size_rt(n: i128, s0: &Spongos, r0: &Sp, full: bool) -> Result<(), String> {
    let e = refm::size_enc(n);
    let u = n as usize;
    let v = pb3::Size(u);
    ensure!(pb3::sizeof_sizet(u) == e.len() && v.sizeof() == e.len(), "size {} announces {} trits instead of {}", n, v.sizeof(), e.len());
    let mut buf = [7u8; 60];
    let mut s = s0.clone();
    let left = {
        let mut b = slm(&mut buf[..e.len()]);
        v.wrap_absorb(&mut s, &mut b);
        b.size()
    };
    ensure!(left == 0, "size {}: {} announced trits are not written", n, left);
    if buf[..e.len()] != e[..] {
        return same(&format!("encoding of {}", n), &buf[..e.len()], &e);
    }
    let mut d = s0.clone();
    let mut b = sl(&buf);
    let got = pb3::Size::unwrap_absorb_sized(&mut d, &mut b);
    ensure!(got == Ok(v), "encoding of {} is read as {:?}", n, got);
    ensure!(b.size() == 60 - e.len(), "reading {} consumes {} trits instead of {}", n, 60 - b.size(), e.len());
    // masked
    let mut m = [7u8; 60];
    let mut sm = s0.clone();
    let left = {
        let mut b = slm(&mut m[..e.len()]);
        v.wrap_mask(&mut sm, &mut b);
        b.size()
    };
    ensure!(left == 0, "masked size {}: {} announced trits are not written", n, left);
    let mut dm = s0.clone();
    let mut b = sl(&m);
    let got = pb3::Size::unwrap_mask_sized(&mut dm, &mut b);
    ensure!(got == Ok(v), "masked encoding of {} is read as {:?}", n, got);
    ensure!(b.size() == 60 - e.len(), "reading masked {} consumes {} trits instead of {}", n, 60 - b.size(), e.len());
    if full {
        let mut r = r0.clone();
        same(&format!("masked encoding of {}", n), &m[..e.len()], &r.encr(&e))?;
        in_sync("sponge after writing a masked size", &sm, &r)?;
        in_sync("sponge after reading a masked size", &dm, &r)?;
        let mut r = r0.clone();
        r.absorb(&e);
        in_sync("sponge after writing a size", &s, &r)?;
        in_sync("sponge after reading a size", &d, &r)?;
        let mut w = pb3::Size(5);
        ensure!(w.unwrap_absorb(&mut s0.clone(), &mut sl(&e)).is_ok() && w == v, "reading {} in place", n);
        let mut w = pb3::Size(5);
        ensure!(w.unwrap_mask(&mut s0.clone(), &mut sl(&m)).is_ok() && w == v, "reading masked {} in place", n);
        ensure!(pb3::sizeof_repeated(u) == e.len(), "repetition count {} announces {}", n, pb3::sizeof_repeated(u));
        ensure!(pb3::repeated(u) == v, "repetition count {} is {:?}", n, pb3::repeated(u));
        if n < 1 << 55 {
            ensure!(pb3::sizeof_trytes(u) == e.len() + 3 * u && pb3::Trytes::sizeof(u) == e.len() + 3 * u, "{} trytes announce {}", n, pb3::sizeof_trytes(u));
            ensure!(pb3::sizeof_ntrytes(u) == 3 * u, "{} fixed trytes announce {}", n, pb3::sizeof_ntrytes(u));
        }
        for k in 0..e.len() {
            ensure!(pb3::Size::unwrap_absorb_sized(&mut s0.clone(), &mut sl(&e[..k])).is_err(), "size {} cut after {} trits is accepted", n, k);
            ensure!(pb3::Size::unwrap_mask_sized(&mut s0.clone(), &mut sl(&m[..k])).is_err(), "masked size {} cut after {} trits is accepted", n, k);
        }
    }
    Ok(())
}
/// Any trits: read exactly as the language of size fields says.
fn size_any(t: &[u8], s0: &Spongos, masked: bool) -> Result<bool, String> {
    let want = refm::size_dec(t);
    let mut b = sl(t);
    let got = pb3::Size::unwrap_absorb_sized(&mut s0.clone(), &mut b);
    let ok = match (&want, &got) {
        (Some((n, k)), Ok(v)) => v.0 as i128 == *n && t.len() - b.size() == *k,
        (None, Err(_)) => true,
        _ => false,
    };
    ensure!(ok, "{} is read as {:?} instead of {:?}", s(t), got, want);
    if let Some((n, k)) = want {
        ensure!(refm::size_enc(n) == t[..k], "harness: {} has two encodings", n);
    }
    if masked {
        let mut m = vec![0u8; t.len()];
        s0.clone().encr(sl(t), slm(&mut m));
        let mut b = sl(&m);
        let got = pb3::Size::unwrap_mask_sized(&mut s0.clone(), &mut b);
        let ok = match (&want, &got) {
            (Some((n, k)), Ok(v)) => v.0 as i128 == *n && t.len() - b.size() == *k,
            (None, Err(_)) => true,
            _ => false,
        };
        ensure!(ok, "masked {} is read as {:?} instead of {:?}", s(t), got, want);
    }
    Ok(want.is_some())
}

pub fn c07(c: &Ctx) {
    let st: Vec<(Spongos, Sp)> = [0, 4, 243, 470, 484, 485, 486].iter().map(|&n| pair(5, n)).collect();
    // every size up to the largest of 4 (5) digits and beyond
    let all = c.q(27u64.pow(4), 27u64.pow(5) / 2 + 1000);
    let blk = 4096;
    c.par("all", all / blk + 1, |i, cov| {
        for n in i * blk..(i + 1) * blk {
            let (s0, r0) = &st[n as usize % 7];
            size_rt(n as i128, s0, r0, n % 64 == 0)?;
        }
        cov.cases(blk);
        cov.sample(|| format!("every size from {} to {}", i * blk, (i + 1) * blk - 1));
        Ok(())
    });
    // around every change of the number of digits
    c.par("bounds", 14 * 400, |i, cov| {
        let m = (27i128.pow(i as u32 % 14) - 1) / 2;
        let n = m - 200 + i as i128 / 14;
        if (0..=SIZE_MAX).contains(&n) {
            let (s0, r0) = &st[i as usize % 7];
            size_rt(n, s0, r0, true)?;
            cov.case(true);
        }
        Ok(())
    });
    // powers and their neighbours
    c.par("powers", 64 + 42, |i, cov| {
        let m = if i < 64 { 1i128 << i } else { 3i128.pow(i as u32 - 64) };
        for k in [m, 2 * m, m * 5, m * 13, SIZE_MAX - m, SIZE_MAX / m] {
            for n in k - 3..=k + 3 {
                if (0..=SIZE_MAX).contains(&n) {
                    let (s0, r0) = &st[i as usize % 7];
                    size_rt(n, s0, r0, true)?;
                    cov.case(true);
                }
            }
        }
        Ok(())
    });
    // every value of every two digits over several backgrounds
    let bgs: [i128; 6] = [0, 13, -13, 1, -1, 7];
    c.par("digits", 13 * 13 * 14 * 6, |i, cov| {
        let d = mixed(i, &[13, 13, 14, 6]);
        if d[0] > d[1] || d[1] >= d[2] {
            return Ok(());
        }
        for x in 0..27 * 27i128 {
            let mut g = vec![bgs[d[3]]; d[2]];
            if d[3] == 5 {
                g.iter_mut().zip(pat(d[2] as u64, 39).chunks(3)).for_each(|(g, t)| *g = refm::get(t));
            }
            g[d[0]] = x % 27 - 13;
            g[d[1]] = x / 27 - 13;
            let mut t = refm::put(d[2] as i128, 3);
            g.iter().for_each(|&g| t.extend(refm::put(g, 3)));
            let ok = size_any(&t, &st[1].0, x % 16 == 0)?;
            if let (true, Some((n, _))) = (ok, refm::size_dec(&t)) {
                size_rt(n, &st[2].0, &st[2].1, false)?;
            }
            cov.case(!ok);
        }
        Ok(())
    });
    // every head with every body of up to 2 (3) trytes, and long constant bodies
    let body = c.q(2u32, 3);
    c.par("decoder", 27 * 27u64.pow(body), |i, cov| {
        let mut t = refm::put(i as i128 % 27 - 13, 3);
        let mut r = i / 27;
        for _ in 0..body {
            t.extend(refm::put(r as i128 % 27 - 13, 3));
            r /= 27;
        }
        for k in 0..=t.len() {
            let ok = size_any(&t[..k], &st[k % 7].0, true)?;
            cov.case(!ok);
        }
        let k = t.len();
        for f in 0..3 {
            t.truncate(k);
            t.resize(60, f);
            let ok = size_any(&t, &st[f as usize].0, true)?;
            cov.case(!ok);
        }
        Ok(())
    });
    // every string of up to 9 (12) trits
    let d = c.q(9u32, 12);
    c.par("short", 3u64.pow(d), |i, cov| {
        let t: T = (0..d).map(|j| (i / 3u64.pow(j) % 3) as u8).collect();
        for k in 0..=d as usize {
            if i / 3u64.pow(k as u32) == 0 {
                let ok = size_any(&t[..k], &st[0].0, true)?;
                cov.case(!ok);
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ fields

#[derive(Clone, Debug, PartialEq)]
enum F {
    Int(usize, i128, bool),
    OneOf(i8),
    Size(usize, bool),
    Rep(usize),
    /// Fixed trytes: trits, masked, through the functions or the traits.
    N(T, bool, bool),
    /// Fixed trytes absorbed by the reader without being returned.
    Skim(T),
    Ty(T, bool, bool),
    Pk(bool),
    Npk(bool),
    Mid(T),
    Ext(T),
    Join(usize),
    Mac,
    Commit,
    /// Signature; the reader recovers or verifies.
    Sig(usize, bool),
    Kem(usize),
    /// A field written on a forked sponge.
    Fork(Box<F>),
}
use F::*;

struct Env {
    sks: Vec<Sk>,
    kps: Vec<Kp>,
    links: Vec<(T, Spongos, Sp)>,
    prng: T,
    key: T,
    /// A capsule under `kps[0]`.
    npk: T,
}
impl Env {
    fn new(c: &Ctx) -> Env {
        let kps = vec![c.setup("keys", || kp(1)), c.setup("keys", || kp(2))];
        let key = pat(51, 243);
        let npk = refm::ntru_encr(&mut pair(0, 0).1, &pat(50, 243), &kps[0].r.pk, &key[..9], &key);
        Env {
            npk,
            sks: vec![c.setup("signing-keys", || sk(1, 0, 0)), c.setup("signing-keys", || sk(2, 1, 1)), c.setup("signing-keys", || sk(3, 2, 1))],
            kps,
            links: (0..2)
                .map(|i| {
                    let (a, b) = pair(30 + i, [700, 100][i as usize]);
                    (pat(40 + i, 81), a, b)
                })
                .collect(),
            prng: pat(50, 243),
            key,
        }
    }
    fn nonce(&self) -> T {
        pat(52, 81)
    }
}

impl F {
    fn size(&self, e: &Env) -> usize {
        match self {
            Int(w, ..) => *w,
            OneOf(_) => pb3::sizeof_oneof(),
            Size(n, _) => pb3::sizeof_sizet(*n),
            Rep(n) => pb3::sizeof_repeated(*n),
            N(t, ..) | Skim(t) => {
                assert!(t.len() % 3 != 0 || pb3::sizeof_ntrytes(t.len() / 3) == t.len());
                t.len()
            }
            Ty(t, ..) => pb3::sizeof_trytes(t.len() / 3),
            Pk(_) => pb3::sizeof_ntrytes(mss::PK_SIZE / 3),
            Npk(_) => pb3::sizeof_ntrytes(ntru::PK_SIZE / 3),
            Mid(_) => 81,
            Ext(_) | Commit => 0,
            Join(_) => pb3::join::sizeof_join(),
            Mac => pb3::mac::sizeof_mac(),
            Sig(k, _) => pb3::mssig::sizeof_mssig(&e.sks[*k].sk),
            Kem(_) => pb3::ntrukem::sizeof_ntrukem(),
            Fork(f) => f.size(e),
        }
    }
    fn write(&self, e: &Env, s: &mut Spongos, b: &mut TritSliceMut) {
        fn put<X: Absorb + Mask>(x: &X, mask: bool, s: &mut Spongos, b: &mut TritSliceMut) {
            if mask {
                x.wrap_mask(s, b)
            } else {
                x.wrap_absorb(s, b)
            }
        }
        match self {
            Int(3, v, m) => put(&pb3::tryte(*v as i8), *m, s, b),
            Int(6, v, m) => put(&pb3::Trint6(*v as i16), *m, s, b),
            Int(9, v, m) => put(&pb3::Trint9(*v as i16), *m, s, b),
            Int(_, v, m) => put(&pb3::Trint18(*v as i32), *m, s, b),
            OneOf(v) => pb3::oneof(*v).wrap_absorb(s, b),
            Size(n, m) => put(&pb3::Size(*n), *m, s, b),
            Rep(n) => pb3::repeated(*n).wrap_absorb(s, b),
            N(t, false, true) => pb3::wrap_absorb_trits(sl(t), s, b),
            N(t, true, true) => pb3::wrap_mask_trits(sl(t), s, b),
            N(t, m, false) => put(&tr(t), *m, s, b),
            Skim(t) => pb3::wrap_absorb_trits(sl(t), s, b),
            Ty(t, false, true) => pb3::wrap_absorb_trytes(&tr(t), s, b),
            Ty(t, true, true) => pb3::wrap_mask_trytes(&tr(t), s, b),
            Ty(t, m, false) => put(&pb3::Trytes(tr(t)), *m, s, b),
            Pk(m) => put(&e.sks[2].pk, *m, s, b),
            Npk(m) => put(&e.kps[0].pk, *m, s, b),
            Mid(t) => msgid(t).wrap_absorb(s, b),
            Ext(t) => s.absorb(sl(t)),
            Join(i) => pb3::join::wrap_join(sl(&e.links[*i].0), &mut e.links[*i].1.clone(), s, b),
            Mac => pb3::mac::wrap_mac(s, b),
            Commit => s.commit(),
            Sig(k, true) => pb3::mssig::squeeze_wrap_mssig(&e.sks[*k].sk, s, b),
            Sig(k, false) => {
                let h = pb3::mssig::squeeze_mss_hash(s);
                pb3::mssig::wrap_mssig(h.slice(), &e.sks[*k].sk, s, b)
            }
            Kem(k) => pb3::ntrukem::wrap_ntrukem(sl(&e.key), &e.kps[*k].pk, &PRNG::init(sl(&e.prng)), sl(&e.nonce()), s, b),
            Fork(f) => {
                let mut g = Spongos::init();
                s.fork_at(&mut g);
                f.write(e, &mut g, b)
            }
        }
    }
    fn refw(&self, e: &Env, w: &mut Wr) {
        let go = |w: &mut Wr, t: &[u8], m: &bool| if *m { w.mask(t) } else { w.absorb(t) };
        match self {
            Int(n, v, m) => go(w, &refm::put(*v, *n), m),
            OneOf(v) => w.absorb(&refm::put(*v as i128, 3)),
            Size(n, m) => go(w, &refm::size_enc(*n as i128), m),
            Rep(n) => w.absorb(&refm::size_enc(*n as i128)),
            N(t, m, _) => go(w, t, m),
            Skim(t) => w.absorb(t),
            Ty(t, false, _) => w.absorb_trytes(t),
            Ty(t, true, _) => w.mask_trytes(t),
            Pk(m) => go(w, e.sks[2].r.pk(), m),
            Npk(m) => go(w, &e.kps[0].r.pk, m),
            Mid(t) => w.absorb(t),
            Ext(t) => w.s.absorb(t),
            Join(i) => w.join(&e.links[*i].0, &mut e.links[*i].2.clone()),
            Mac => w.mac(),
            Commit => w.s.commit(),
            Sig(k, _) => w.mssig(&e.sks[*k].r),
            Kem(k) => w.ntrukem(&e.prng, &e.kps[*k].r.pk, &e.nonce(), &e.key),
            Fork(f) => {
                let mut g = w.s.clone();
                let mut x = Wr::new(&mut g);
                f.refw(e, &mut x);
                let b = x.b;
                w.b.extend(b)
            }
        }
    }
    /// Whether the field is read with the value that was written. Whatever can be read both as a new value and
    /// in place (over the value given) is read in both ways.
    fn read(&self, e: &Env, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<bool> {
        fn absorbed<X: Absorb + PartialEq>(mut x: X, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<X> {
            let (mut s2, mut b2) = (s.clone(), *b);
            let r = if b.size() % 2 == 0 {
                let y = X::unwrap_absorb_sized(&mut s2, &mut b2);
                (x.unwrap_absorb(s, b), y)
            } else {
                let r = x.unwrap_absorb(&mut s2, &mut b2);
                (r, X::unwrap_absorb_sized(s, b))
            };
            agree(x, r, b.size() == b2.size())
        }
        fn masked<X: Mask + PartialEq>(mut x: X, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<X> {
            let (mut s2, mut b2) = (s.clone(), *b);
            let r = if b.size() % 2 == 0 {
                let y = X::unwrap_mask_sized(&mut s2, &mut b2);
                (x.unwrap_mask(s, b), y)
            } else {
                let r = x.unwrap_mask(&mut s2, &mut b2);
                (r, X::unwrap_mask_sized(s, b))
            };
            agree(x, r, b.size() == b2.size())
        }
        fn agree<X: PartialEq>(x: X, r: (pb3::Result<()>, pb3::Result<X>), sizes: bool) -> pb3::Result<X> {
            match r {
                (Ok(()), Ok(y)) => {
                    assert!(x == y && sizes, "a value read in place differs from one read anew");
                    Ok(x)
                }
                (Err(x), Err(_)) => Err(x),
                _ => panic!("reading in place succeeds and reading anew fails, or the other way round"),
            }
        }
        fn get<X: Absorb + Mask + PartialEq>(x: X, mask: bool, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<X> {
            if mask {
                masked(x, s, b)
            } else {
                absorbed(x, s, b)
            }
        }
        Ok(match self {
            Int(3, v, m) => get(pb3::tryte(5), *m, s, b)?.0 as i128 == *v,
            Int(6, v, m) => get(pb3::Trint6(-7), *m, s, b)?.0 as i128 == *v,
            Int(9, v, m) => get(pb3::Trint9(9), *m, s, b)?.0 as i128 == *v,
            Int(_, v, m) => get(pb3::Trint18(11), *m, s, b)?.0 as i128 == *v,
            OneOf(v) => absorbed(pb3::oneof(3), s, b)? == pb3::oneof(*v),
            Size(n, m) => get(pb3::Size(77), *m, s, b)?.0 == *n,
            Rep(n) => absorbed(pb3::repeated(20), s, b)? == pb3::repeated(*n),
            N(t, m, true) => {
                let mut x = vec![0u8; t.len()];
                if *m {
                    pb3::unwrap_mask_trits(slm(&mut x), s, b)?;
                } else {
                    pb3::unwrap_absorb_trits(slm(&mut x), s, b)?;
                }
                x == *t
            }
            N(t, m, false) => {
                let mut x = tr(&pat(7, t.len()));
                if *m {
                    x.unwrap_mask(s, b)?;
                } else {
                    x.unwrap_absorb(s, b)?;
                }
                tv(&x) == *t
            }
            Skim(t) => {
                pb3::unwrap_absorb_n(t.len(), s, b)?;
                true
            }
            Ty(t, false, true) => tv(&pb3::unwrap_absorb_trytes(s, b)?) == *t,
            Ty(t, true, true) => tv(&pb3::unwrap_mask_trytes(s, b)?) == *t,
            Ty(t, m, false) => {
                let x = get(pb3::Trytes(tr(&pat(8, t.len() * 5 % 63 * 3))), *m, s, b)?;
                tv(&x.0) == *t && x.size() == t.len()
            }
            Pk(m) => get(e.sks[1].pk.clone(), *m, s, b)? == e.sks[2].pk,
            Npk(m) => {
                let x = get(e.kps[1].pk.clone(), *m, s, b)?;
                // the key read encapsulates like the one written
                let cap = |k: &ntru::PublicKey| {
                    let mut y = vec![9u8; 9216];
                    k.encr(&PRNG::init(sl(&e.prng)), sl(&e.key[..9]), sl(&e.key), slm(&mut y));
                    y
                };
                x == e.kps[0].pk && cap(&x) == e.npk
            }
            Mid(t) => absorbed(msgid(&pat(9, 81)), s, b)? == msgid(t),
            Ext(t) => {
                s.absorb(sl(t));
                true
            }
            Join(i) => {
                let look = |m: TritSlice| e.links.iter().enumerate().find(|l| sv(m) == l.1 .0).map(|(j, l)| (l.1.clone(), j));
                pb3::join::unwrap_join(look, s, b)? == *i
            }
            Mac => {
                pb3::mac::unwrap_mac(s, b)?;
                true
            }
            Commit => {
                s.commit();
                true
            }
            Sig(k, false) => pb3::mssig::squeeze_unwrap_mssig_recover(s, b)? == e.sks[*k].pk,
            Sig(k, true) => {
                pb3::mssig::squeeze_unwrap_mssig_verify(&e.sks[*k].pk, s, b)?;
                true
            }
            Kem(k) => {
                let mut x = vec![0u8; 243];
                pb3::ntrukem::unwrap_ntrukem(slm(&mut x), &e.kps[*k].sk, s, b)?;
                x == e.key
            }
            Fork(f) => {
                let mut g = Spongos::init();
                s.fork_at(&mut g);
                f.read(e, &mut g, b)?
            }
        })
    }
    /// Whether what follows depends on the contents of the field.
    fn bound(&self) -> bool {
        !matches!(self, Join(_) | Sig(..) | Mac | Fork(_))
    }
}

fn short() -> Vec<F> {
    let t = |n| pat(n as u64 + 3, n);
    vec![
        Int(3, -13, false),
        Int(3, 8, true),
        Int(9, 9841, true),
        Int(18, -193710244, false),
        Int(18, 100000001, true),
        OneOf(1),
        Size(0, false),
        Size(0, true),
        Size(14, false),
        Size(365, true),
        N(t(3), false, false),
        N(t(27), true, true),
        N(t(243), true, false),
        N(t(480), false, true),
        Ty(vec![], false, true),
        Ty(vec![], true, false),
        Ty(t(42), false, false),
        Ty(t(81), true, true),
        Ty(t(486), true, false),
        Ext(t(81)),
        Join(0),
        Mac,
        Commit,
        Fork(Box::new(N(t(30), true, true))),
    ]
}
fn long() -> Vec<F> {
    let t = |n| pat(n as u64 + 3, n);
    let mut v = short();
    v.extend(vec![
        Int(3, 0, false),
        Int(6, 364, false),
        Int(6, -300, true),
        Int(9, -5000, false),
        OneOf(-13),
        OneOf(0),
        Size(13, true),
        Size(SIZE_MAX as usize, true),
        Size(SIZE_MAX as usize, false),
        Size(9841, false),
        Rep(3),
        Rep(100),
        N(vec![], true, true),
        N(vec![], false, false),
        N(t(486), true, true),
        N(t(1000), false, false),
        N(t(1001), true, false),
        Skim(t(81)),
        Skim(t(1)),
        Ty(t(39), false, true),
        Ty(t(1500), false, false),
        Ty(t(1500), true, true),
        Ty(t(1095), true, false),
        Pk(false),
        Pk(true),
        Npk(false),
        Npk(true),
        Mid(t(81)),
        Ext(t(700)),
        Join(1),
        Sig(0, false),
        Sig(1, true),
        Kem(0),
        Kem(1),
        Fork(Box::new(Ty(t(60), false, false))),
        Fork(Box::new(Kem(0))),
        Fork(Box::new(Mac)),
    ]);
    v
}

/// Write a sequence, compare with the reference and read it back.
fn sequence(e: &Env, fs: &[&F], start: usize, cov: &mut Cov) -> Result<T, String> {
    let (s0, mut r) = pair(21, start);
    let n: usize = fs.iter().map(|f| f.size(e)).sum();
    let mut w = s0.clone();
    let wire = written(n, |b| {
        for f in fs {
            f.write(e, &mut w, b);
        }
    })?;
    let mut x = Wr::new(&mut r);
    for f in fs {
        f.refw(e, &mut x);
        cov.trans += 1;
    }
    let want = x.b;
    same(&format!("{:?} from position {}", fs, start), &wire, &want)?;
    in_sync("sponge of the writer", &w, &r)?;
    let mut d = s0.clone();
    let mut b = sl(&wire);
    let mut left = n;
    for f in fs {
        let got = f.read(e, &mut d, &mut b);
        ensure!(got == Ok(true), "{:?} of {:?} from position {} is read as {:?}", f, fs, start, got);
        left -= f.size(e);
        ensure!(b.size() == left, "reading {:?} of {:?} leaves {} trits instead of {}", f, fs, b.size(), left);
        cov.trans += 1;
    }
    let tg = tag(&d);
    in_sync("sponge of the reader", &d, &r)?;
    cov.state(&tg);
    cov.traces += 1;
    cov.sample(|| format!("{:?} from position {}", fs, start));
    Ok(wire)
}
/// Whether a reader notices: an error or a different value.
fn noticed(e: &Env, fs: &[&F], s0: &Spongos, wire: &[u8]) -> bool {
    let (mut d, mut b) = (s0.clone(), sl(wire));
    fs.iter().any(|f| f.read(e, &mut d, &mut b) != Ok(true))
}

pub fn c08(c: &Ctx) {
    let e = Env::new(c);
    let e = &e;
    let (sh, lo) = (short(), long());
    let starts = [0usize, 1, 242, 243, 300, 405, 484, 485, 486];
    // every single field from every position in a block
    c.par("fields", lo.len() as u64 * 487, |i, cov| {
        let d = mixed(i, &[lo.len() as u64, 487]);
        if matches!(lo[d[0]], Sig(..)) && !c.thorough && d[1] % 27 != 0 {
            return Ok(());
        }
        sequence(e, &[&lo[d[0]]], d[1], cov).map(|_| ())
    });
    // every two fields
    let ns = c.q(3, 9);
    let np = lo.len() as u64;
    c.par("pairs", np * np * ns, |i, cov| {
        let d = mixed(i, &[np, np, ns]);
        let st = starts[(d[2] * 9 / ns as usize + d[0]) % 9];
        sequence(e, &[&lo[d[0]], &lo[d[1]], &Mac], st, cov).map(|_| ())
    });
    // every three (four) short fields
    let n = sh.len() as u64;
    c.par("triples", n * n * n * c.q(1, 9), |i, cov| {
        let d = mixed(i, &[n, n, n, 9]);
        sequence(e, &[&sh[d[0]], &sh[d[1]], &sh[d[2]], &Mac], starts[(d[0] + d[1] * 2 + d[2] + d[3]) % 9], cov).map(|_| ())
    });
    if c.thorough {
        c.par("fours", n * n * n * n, |i, cov| {
            let d = mixed(i, &[n, n, n, n]);
            sequence(e, &[&sh[d[0]], &sh[d[1]], &sh[d[2]], &sh[d[3]]], starts[(d[0] + d[1] * 2 + d[2] + d[3]) % 9], cov).map(|_| ())
        });
    }
    // integers of every value, sizes and trytes of every length
    c.par("integers", 19683, |i, cov| {
        let v = i as i128 - 9841;
        for m in [false, true] {
            let fs = [Int(9, v, m), Int(6, (v % 365).clamp(-364, 364), m), Int(3, v % 14, m), Int(18, v * 19683 + v * 5 % 9841, m)];
            sequence(e, &fs.iter().collect::<Vec<_>>(), 480 + i as usize % 20, cov)?;
        }
        Ok(())
    });
    // size and repetition fields around every length of their encoding
    c.par("sizes", 14 * 7 * 9, |i, cov| {
        let d = mixed(i, &[7, 14, 9]);
        let n = (27i128.pow(d[1] as u32) - 1) / 2 + [-2, -1, 0, 1, 2, 14, 365][d[0]];
        if n < 0 || n > SIZE_MAX as i128 {
            return Ok(());
        }
        let n = n as usize;
        let fs = [Size(n, false), Size(n, true), Rep(n), Size(n / 2, true), Size(n, false), Mac];
        sequence(e, &fs.iter().collect::<Vec<_>>(), starts[d[2]], cov).map(|_| ())
    });
    c.par("lengths", c.q(1100, 4000), |i, cov| {
        let n = i as usize;
        for m in [false, true] {
            let fs = [N(pat(i, n), m, n % 2 == 0), Ty(pat(i + 1, 3 * (n / 2)), m, n % 4 < 2), N(fill(i % 3, n), !m, n % 2 == 1), Mac];
            sequence(e, &fs.iter().collect::<Vec<_>>(), n * 7 % 487, cov)?;
        }
        Ok(())
    });
    // a reader in another state: the tag fails, whatever comes between
    c.par("desync", np * np, |i, cov| {
        let d = mixed(i, &[np, np]);
        let fs = [&lo[d[0]], &lo[d[1]], &Mac];
        let st = starts[i as usize % 9].max(1);
        let wire = {
            let (mut w, _) = pair(21, st);
            let n = fs.iter().map(|f| f.size(e)).sum();
            written(n, |b| fs.iter().for_each(|f| f.write(e, &mut w, b)))?
        };
        let base = pat(21, st);
        for p in [0, st / 2, st - 1] {
            let mut x = base.clone();
            x[p] = (x[p] + 1 + (i % 2) as u8) % 3;
            let mut s0 = Spongos::init();
            s0.absorb(sl(&x));
            let (mut r, mut b) = (s0.clone(), sl(&wire));
            let res: Vec<_> = fs.iter().map(|f| f.read(e, &mut r, &mut b).is_ok()).collect();
            ensure!(!res.iter().all(|x| *x), "{:?} is read to the end in a state that differs at trit {} of {}", fs, p, st);
            cov.trans += 1;
        }
        cov.traces += 1;
        Ok(())
    });
    // every altered trit of short sequences, one trit per field of the long ones
    c.par("altered", np * np, |i, cov| {
        let d = mixed(i, &[np, np]);
        let fs = [&lo[d[0]], &lo[d[1]], &Mac];
        let st = starts[i as usize % 9];
        let (s0, _) = pair(21, st);
        let mut w = s0.clone();
        let n: usize = fs.iter().map(|f| f.size(e)).sum();
        let mut wire = written(n, |b| fs.iter().for_each(|f| f.write(e, &mut w, b)))?;
        ensure!(!noticed(e, &fs, &s0, &wire), "{:?} is not read back", fs);
        let sz: Vec<usize> = fs.iter().map(|f| f.size(e)).collect();
        let step = if n < c.q(600, 4000) { 1 } else { n / c.q(7, 40) };
        let sig = fs.iter().any(|f| matches!(f, Sig(..)));
        let mut p = if step > 1 { i as usize % step } else { 0 };
        while p < n {
            for k in 1..3u8 {
                if step > 1 && sig && k == 2 {
                    continue;
                }
                wire[p] = (wire[p] + k) % 3;
                // what a fork reads leaves no trace
                let fork = (matches!(fs[0], Fork(_)) && p < sz[0]) || (matches!(fs[1], Fork(_)) && p >= sz[0] && p < sz[0] + sz[1]);
                let caught = if fork {
                    noticed(e, &fs, &s0, &wire)
                } else {
                    // not only a value: an error at the latest at the tag, unless a fork or signature intervenes
                    let (mut r, mut b) = (s0.clone(), sl(&wire));
                    let mut any = false;
                    let mut err = false;
                    for f in &fs {
                        match f.read(e, &mut r, &mut b) {
                            Ok(true) => {}
                            Ok(false) => any = true,
                            Err(_) => {
                                err = true;
                                break;
                            }
                        }
                    }
                    let strict = (p < sz[0] && fs[0].bound()) || (p >= sz[0] && p < sz[0] + sz[1] && fs[1].bound()) || p >= sz[0] + sz[1];
                    err || (any && !strict)
                };
                ensure!(caught, "{:?} from position {} is read to the end with trit {} of {} altered", fs, st, p, n);
                wire[p] = (wire[p] + 3 - k) % 3;
                cov.trans += 1;
            }
            p += step;
        }
        cov.traces += 1;
        Ok(())
    });
}

// ------------------------------------------------------------------ C09

/// A way to read something from a buffer. True: complete; the count is what must have been available.
type Reader<'a> = Box<dyn Fn(&mut Spongos, &mut TritSlice) -> bool + Sync + 'a>;

struct Rdr<'a> {
    name: &'static str,
    f: Reader<'a>,
    /// Whether short arbitrary buffers can hold the field, and the trits it reads, by the format.
    want: Box<dyn Fn(&[u8], &Sp) -> Option<usize> + Sync + 'a>,
    /// Largest number of bytes that may be held at a time while reading `n` trits.
    cap: fn(usize) -> usize,
}
fn fits(n: usize) -> impl Fn(&[u8], &Sp) -> Option<usize> + Sync {
    move |t: &[u8], _: &Sp| (t.len() >= n).then_some(n)
}
fn plain(t: &[u8], s: &Sp, mask: bool) -> T {
    if mask {
        s.clone().decr(t)
    } else {
        t.to_vec()
    }
}
fn readers<'a>(e: &'a Env) -> Vec<Rdr<'a>> {
    fn any<X: Absorb + Mask>(mask: bool) -> impl Fn(&mut Spongos, &mut TritSlice) -> bool + Sync {
        move |s: &mut Spongos, b: &mut TritSlice| {
            if mask {
                X::unwrap_mask_sized(s, b).is_ok()
            } else {
                X::unwrap_absorb_sized(s, b).is_ok()
            }
        }
    }
    let cap: fn(usize) -> usize = |n| 64_000 + 8 * n;
    let mut v: Vec<Rdr<'a>> = vec![];
    macro_rules! r {
        ($n:expr, $f:expr, $w:expr) => {
            v.push(Rdr { name: $n, f: Box::new($f), want: Box::new($w), cap })
        };
    }
    for m in [false, true] {
        r!("tryte", any::<pb3::Tryte>(m), fits(3));
        r!("trint6", any::<pb3::Trint6>(m), fits(6));
        r!("trint9", any::<pb3::Trint9>(m), fits(9));
        r!("trint18", any::<pb3::Trint18>(m), fits(18));
        r!("size", any::<pb3::Size>(m), move |t, s| refm::size_dec(&plain(t, s, m)).map(|x| x.1));
        r!("trytes", any::<pb3::Trytes>(m), move |t, s| {
            let (n, k) = refm::size_dec(&plain(t, s, m))?;
            (3 * n <= (t.len() - k) as i128).then(|| k + 3 * n as usize)
        });
        r!("trytes in place", move |s: &mut Spongos, b: &mut TritSlice| {
            let mut x = pb3::Trytes(tr(&[2; 30]));
            if m { x.unwrap_mask(s, b).is_ok() } else { x.unwrap_absorb(s, b).is_ok() }
        }, move |t, s| {
            let (n, k) = refm::size_dec(&plain(t, s, m))?;
            (3 * n <= (t.len() - k) as i128).then(|| k + 3 * n as usize)
        });
        r!("sized ntrytes", any::<pb3::NTrytes>(m), |_, _| None);
        r!("public signature key", any::<mss::PublicKey>(m), fits(243));
        for n in [0usize, 1, 3, 7, 81] {
            r!("ntrytes", move |s: &mut Spongos, b: &mut TritSlice| {
                let mut x = Trits::zero(n);
                if m { x.unwrap_mask(s, b).is_ok() } else { x.unwrap_absorb(s, b).is_ok() }
            }, fits(n));
            r!("trits", move |s: &mut Spongos, b: &mut TritSlice| {
                let mut x = vec![0u8; n];
                if m { pb3::unwrap_mask_trits(slm(&mut x), s, b).is_ok() } else { pb3::unwrap_absorb_trits(slm(&mut x), s, b).is_ok() }
            }, fits(n));
        }
        v.push(Rdr {
            name: "public encryption key",
            f: Box::new(any::<ntru::PublicKey>(m)),
            want: Box::new(move |t, s| (t.len() >= 9216 && refm::ntru_pk(&plain(&t[..9216], s, m)).is_some()).then_some(9216)),
            cap: |n| 128_000 + 8 * n,
        });
    }
    r!("message id", |s: &mut Spongos, b: &mut TritSlice| MsgId::unwrap_absorb_sized(s, b).is_ok(), fits(81));
    for n in [0usize, 1, 5, 81, 1 << 40, usize::MAX] {
        r!("skimmed trits", move |s: &mut Spongos, b: &mut TritSlice| pb3::unwrap_absorb_n(n, s, b).is_ok(), fits(n));
    }
    r!("tag", |s: &mut Spongos, b: &mut TritSlice| pb3::mac::unwrap_mac(s, b).is_ok(), |t, s| {
        let mut s = s.clone();
        s.commit();
        (t.len() >= 243 && s.squeeze(243) == t[..243]).then_some(243)
    });
    r!("link", move |s: &mut Spongos, b: &mut TritSlice| {
        pb3::join::unwrap_join(|m| e.links.iter().find(|l| sv(m) == l.0).map(|l| (l.1.clone(), ())), s, b).is_ok()
    }, move |t, _| (t.len() >= 81 && e.links.iter().any(|l| l.0 == t[..81])).then_some(81));
    let sigcap: fn(usize) -> usize = |n| 250_000 + 8 * n;
    v.push(Rdr {
        name: "recovered signature",
        f: Box::new(|s, b| pb3::mssig::squeeze_unwrap_mssig_recover(s, b).is_ok()),
        want: Box::new(|t, _| sig_fits(t)),
        cap: sigcap,
    });
    v.push(Rdr {
        name: "recovered signature of a given hash",
        f: Box::new(|s, b| pb3::mssig::unwrap_mssig_recover(sl(&pat(1, 234)), s, b).is_ok()),
        want: Box::new(|t, _| sig_fits(t)),
        cap: sigcap,
    });
    v.push(Rdr {
        name: "verified signature",
        f: Box::new(move |s, b| pb3::mssig::squeeze_unwrap_mssig_verify(&e.sks[1].pk, s, b).is_ok()),
        want: Box::new(move |t, s| {
            let mut s = s.clone();
            s.commit();
            let h = s.squeeze(234);
            let n = sig_fits(t)?;
            (refm::mss_recover(&h, t)?.0 == *e.sks[1].r.pk()).then_some(n)
        }),
        cap: sigcap,
    });
    v.push(Rdr {
        name: "capsule",
        f: Box::new(move |s, b| {
            let mut k = vec![0u8; 243];
            pb3::ntrukem::unwrap_ntrukem(slm(&mut k), &e.kps[0].sk, s, b).is_ok()
        }),
        want: Box::new(move |t, s| (t.len() >= 9216 && refm::ntru_decr(&mut s.clone(), &e.kps[0].r, &t[..9216]).is_some()).then_some(9216)),
        cap: |n| 250_000 + 8 * n,
    });
    v
}
fn sig_fits(t: &[u8]) -> Option<usize> {
    if t.len() < 18 {
        return None;
    }
    let (h, i) = (refm::get(&t[..4]), refm::get(&t[4..18]));
    if h < 0 || i < 0 || i >= 1i128 << h {
        return None;
    }
    let n = refm::sig_size(h as usize);
    (t.len() >= n).then_some(n)
}
/// One read, watched.
fn watch(r: &Rdr, t: &[u8], fence: &mut Fenced, st: &(Spongos, Sp), cov: &mut Cov) -> Result<(), String> {
    let want = (r.want)(t, &st.1);
    fence.load(t);
    // short buffers from the start of the trits too
    if t.len() < 100 {
        watch_at(r, t, fence, 0, &want, st)?;
    }
    watch_at(r, t, fence, BEHIND, &want, st)?;
    cov.case(want.is_none());
    Ok(())
}
fn watch_at(r: &Rdr, t: &[u8], fence: &Fenced, d: usize, want: &Option<usize>, st: &(Spongos, Sp)) -> Result<(), String> {
    let b = fence.behind(t.len(), d);
    let mut v = b;
    let mut s = st.0.clone();
    let (ok, mem) = peak(|| (r.f)(&mut s, &mut v));
    let short = if t.len() > 60 { format!("{}..", crate::util::s(&t[..60])) } else { crate::util::s(t) };
    ensure!(ok == want.is_some(), "reading {} from {} trits {}: success {}, by the format {:?}", r.name, t.len(), short, ok, want);
    ensure!(mem <= (r.cap)(t.len()), "reading {} from {} trits {} takes {} bytes", r.name, t.len(), short, mem);
    ensure!(v.size() <= t.len(), "after reading {} from {} trits, {} are left", r.name, t.len(), v.size());
    if let Some(n) = *want {
        ensure!(t.len() - v.size() == n, "reading {} from {} trits {} consumes {} instead of {}", r.name, t.len(), short, t.len() - v.size(), n);
    }
    ensure!(tv_eq(b, t), "reading {} changes the buffer", r.name);
    Ok(())
}

pub fn c09(c: &Ctx) {
    let e = Env::new(c);
    let e = &e;
    let rs = readers(e);
    let nr = rs.len() as u64;
    let st: Vec<(Spongos, Sp)> = [0, 33, 484].iter().map(|&n| pair(8, n)).collect();
    // every buffer of up to 7 (10) trits
    let d = c.q(8u32, 11);
    c.par("short", nr * 3u64.pow(4), |i, cov| {
        let r = &rs[i as usize % rs.len()];
        let mut f = Fenced::new(64);
        let hi = i / nr;
        for k in 0..=d {
            let per = 3u64.pow(k);
            for x in 0..per {
                if x % 81 != hi {
                    continue;
                }
                let t: T = (0..k).map(|j| (x / 3u64.pow(j) % 3) as u8).collect();
                watch(r, &t, &mut f, &st[(x % 3) as usize], cov)?;
            }
        }
        cov.sample(|| format!("{} from every buffer of up to {} trits", r.name, d));
        Ok(())
    });
    // constant and irregular buffers of every length
    let lens: Vec<usize> = (0..c.q(400, 1200)).chain([485, 486, 487, 1000, 9215, 9216, 9217, 9300, 13139, 13140, 13141, 13382, 13383, 14000]).collect();
    c.par("lengths", nr * lens.len() as u64, |i, cov| {
        let (r, n) = (&rs[i as usize % rs.len()], lens[(i / nr) as usize]);
        let mut f = Fenced::new(n);
        for k in 0..c.q(8, 20) {
            watch(r, &fill(k, n), &mut f, &st[(k % 3) as usize], cov)?;
        }
        Ok(())
    });
    // genuine fields cut at every trit or followed by others
    let lo: Vec<F> = long().into_iter().chain([Sig(2, false), Sig(0, true)]).collect();
    c.par("cut", lo.len() as u64, |i, cov| {
        let fd = &lo[i as usize];
        for (s0, _) in &st {
            let n = fd.size(e);
            let wire = written(n, |b| fd.write(e, &mut s0.clone(), b))?;
            let mut f = Fenced::new(n + 50);
            for k in 0..n {
                f.load(&wire[..k]);
                let mut v = f.behind(k, BEHIND);
                let (got, mem) = peak(|| fd.read(e, &mut s0.clone(), &mut v));
                ensure!(got.is_err(), "{:?} cut after {} of {} trits is read as {:?}", fd, k, n, got);
                ensure!(mem < 500_000 + 8 * k, "reading {:?} cut after {} trits takes {} bytes", fd, k, mem);
                cov.case(true);
            }
            for (k, m) in [(0, 1), (1, 3), (2, 50), (5, 49)] {
                let mut t = wire.clone();
                t.extend(fill(k, m));
                f.load(&t);
                let mut v = f.behind(t.len(), BEHIND);
                let got = fd.read(e, &mut s0.clone(), &mut v);
                ensure!(got == Ok(true) && v.size() == m, "{:?} followed by {} trits is read as {:?}, leaving {}", fd, m, got, v.size());
                cov.case(false);
            }
        }
        cov.sample(|| format!("{:?} cut at every trit", fd));
        Ok(())
    });
    // lengths that lie
    let liars: Vec<i128> = {
        let mut v: Vec<i128> = (0..60).chain([364, 365, 366, 9841, 9842, 265720, 265721]).collect();
        for k in 5..=13 {
            v.extend((-2..3).map(|d| (27i128.pow(k) - 1) / 2 + d));
            v.extend((0..3).map(|d| 27i128.pow(k - 1) * (k as i128) + d));
        }
        for k in [31, 32, 33, 40, 50, 60] {
            v.extend((-2..3).flat_map(|d| [(1i128 << k) + d, (1i128 << k) / 3 + d, (1i128 << k) * 2 / 3 + d]));
        }
        v.extend((0..4).flat_map(|d| [SIZE_MAX - d, (1i128 << 61) / 3 + d, (1 << 62) / 3 + d, (1 << 60) - d]));
        v.retain(|x| (0..=SIZE_MAX).contains(x));
        v
    };
    c.par("liars", liars.len() as u64, |i, cov| {
        let n = liars[i as usize];
        let head = refm::size_enc(n);
        for have in (0..200).chain([n - 1, n, n + 1].into_iter().filter(|x| (0..600).contains(x)).flat_map(|x| [3 * x - 1, 3 * x, 3 * x + 1, 3 * x + 2])) {
            if have < 0 {
                continue;
            }
            let mut t = head.clone();
            t.extend(pat(n as u64, have as usize));
            let mut f = Fenced::new(t.len());
            for r in rs.iter().filter(|r| r.name.starts_with("trytes")) {
                for st in &st {
                    // absorbed as it is; for the masked readers, encrypted
                    let m = st.1.clone().encr(&t);
                    watch(r, &t, &mut f, st, cov)?;
                    watch(r, &m, &mut f, st, cov)?;
                }
            }
        }
        Ok(())
    });
    // signature headers: every height with every kind of index, over buffers of several lengths
    c.par("signature-headers", 81 * 7, |i, cov| {
        let h = i as i128 % 81 - 40;
        let m = 1i128 << h.clamp(0, 40);
        let idx = [0, 1, -1, m - 1, m, m + 1, -m][i as usize / 81];
        let idx = idx.clamp(-2391484, 2391484);
        let mut t = refm::put(h, 4);
        t.extend(refm::put(idx, 14));
        let full = refm::sig_size(h.max(0) as usize);
        let mut f = Fenced::new(full + 3);
        for n in [18, 19, 300, 13139, 13140, 13141, full - 1, full, full + 3] {
            t.truncate(18);
            t.extend(pat(7, n - 18));
            for r in rs.iter().filter(|r| r.name.contains("signature") && !r.name.contains("key")) {
                watch(r, &t, &mut f, &st[i as usize % 3], cov)?;
            }
        }
        Ok(())
    });
    // altered capsules and keys at full length
    c.par("full-length", c.q(200, 2000), |i, cov| {
        let mut f = Fenced::new(9300);
        let (s0, r0) = &st[i as usize % 3];
        for fd in [Kem(0), Npk(false), Npk(true)] {
            let mut t = written(9216, |b| fd.write(e, &mut s0.clone(), b))?;
            let p = (i as usize * 131) % 9216;
            t[p] = (t[p] + 1) % 3;
            t.extend(fill(i % 5, i as usize % 84));
            for r in rs.iter().filter(|r| ["capsule", "public encryption key"].contains(&r.name)) {
                watch(r, &t, &mut f, &(s0.clone(), r0.clone()), cov)?;
            }
        }
        Ok(())
    });
}
