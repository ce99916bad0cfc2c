//! C17 polynomials, C18 key encapsulation, C19 refusals of key encapsulation.

use crate::ensure;
use crate::refm::{self, center, pmod, Ntru, N, P, Q, T};
use crate::rt::{peak, Ctx, Fenced};
use crate::util::*;
use iota_mam::ntru;
use iota_mam::pb3::{Absorb, Mask};
use iota_mam::poly::Poly;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;

const H: i64 = Q / 2;

/// Encodings of the q coefficient values, at index value + 6144.
fn codes() -> Vec<[u8; 9]> {
    (-H..=H)
        .map(|v| {
            let mut a = [0; 9];
            a.copy_from_slice(&refm::put(v as i128, 9));
            a
        })
        .collect()
}
struct Cx {
    codes: Vec<[u8; 9]>,
}
impl Cx {
    fn code(&self, v: i64) -> &[u8; 9] {
        &self.codes[(center(v) + H) as usize]
    }
    fn trits(&self, p: &[i64]) -> T {
        let mut t = Vec::with_capacity(9 * N);
        for &c in p {
            t.extend_from_slice(self.code(c));
        }
        t
    }
    fn poly(&self, p: &[i64]) -> Poly {
        from(&self.trits(p)).expect("harness: in-range coefficients refused")
    }
    fn eq(&self, what: &dyn Fn() -> String, got: &Poly, want: impl Fn(usize) -> i64) -> Result<(), String> {
        let t = to(got);
        for i in 0..N {
            let w = want(i);
            if &t[9 * i..9 * i + 9] != self.code(w) {
                return Err(format!("{}: coefficient {} is {} instead of {}", what(), i, refm::get(&t[9 * i..9 * i + 9]), center(w)));
            }
        }
        Ok(())
    }
}
fn from(t: &[u8]) -> Option<Poly> {
    let mut p = Poly::new();
    p.from_trits(sl(t)).then_some(p)
}
fn to(p: &Poly) -> T {
    let mut t = vec![9u8; 9 * N];
    p.to_trits(slm(&mut t));
    t
}
/// Product through the transforms.
fn product(a: &Poly, b: &Poly) -> Poly {
    let (mut x, mut y) = (*a, *b);
    x.ntt();
    y.ntt();
    x.conv(&y);
    x.intt();
    x
}
/// Irregular polynomial number `k`.
fn dense(k: u64) -> P {
    let t = pat(k, 9 * N);
    t.chunks(9).map(|c| pmod(refm::get(c) as i64)).collect()
}
/// Boundary-heavy polynomials.
fn shape(k: u64) -> P {
    let e = [H, -H, H - 1, 1 - H, 1, -1, 0, 4096, -4096, 3, 2];
    (0..N)
        .map(|i| match k / 11 {
            0 => e[k as usize % 11],
            1 => e[k as usize % 11] * if i % 2 == 0 { 1 } else { -1 },
            2 => e[(i + k as usize) % 11],
            3 => e[k as usize % 11] + i as i64,
            4 => e[k as usize % 11] * (i as i64 % 512 == 0) as i64,
            _ => e[(i * (k as usize % 11 + 1) / 7) % 11],
        })
        .map(pmod)
        .collect()
}

pub fn c17(c: &Ctx) {
    let cx = Cx { codes: codes() };
    let cx = &cx;
    // 13 polynomials that hold every value once
    let all: Vec<P> = (0..13).map(|k| (0..N as i64).map(|i| pmod((k * N as i64 + i).min(Q - 1))).collect()).collect();
    let allp: Vec<Poly> = all.iter().map(|p| c.setup("decode", || cx.poly(p))).collect();
    // every pair of values, pointwise
    c.par("pairs", Q as u64, |b, cov| {
        let b = b as i64;
        let g = cx.poly(&vec![b; N]);
        for (a, p) in all.iter().zip(&allp) {
            let mut x = *p;
            x.conv(&g);
            cx.eq(&|| format!("product of the values with {}", center(b)), &x, |i| a[i] * b % Q)?;
            let mut x = *p;
            x.add(&g);
            cx.eq(&|| format!("sum of the values with {}", center(b)), &x, |i| a[i] + b)?;
            let mut x = *p;
            x.sub(&g);
            cx.eq(&|| format!("difference of the values with {}", center(b)), &x, |i| a[i] - b)?;
            cov.cases(3 * N as u64);
        }
        cov.sample(|| format!("all values times, plus and minus {}", center(b)));
        Ok(())
    });
    // every value at every position, operations with one argument and with small polynomials
    c.par("values", Q as u64, |s, cov| {
        let v: P = (0..N as i64).map(|i| (i * 7919 + s as i64) % Q).collect();
        let t = cx.trits(&v);
        let p = from(&t).ok_or_else(|| format!("coefficients {}.. are refused", v[0]))?;
        same("encoding of the decoded coefficients", &to(&p), &t)?;
        let w = |n: &'static str| move || format!("{} of the coefficients i*7919+{}", n, s);
        let mut small = vec![9u8; N];
        p.round_to_trits(slm(&mut small));
        for i in 0..N {
            ensure!(small[i] as i64 == center(v[i]).rem_euclid(3), "rounding of {} to a trit gives {}", center(v[i]), small[i]);
        }
        let mut x = p;
        x.round_small();
        cx.eq(&w("rounding"), &x, |i| refm::small(&small[i..i + 1])[0])?;
        let mut x = p;
        x.small_mul3();
        cx.eq(&w("tripling"), &x, |i| 3 * v[i])?;
        let mut x = p;
        x.small3_add1();
        cx.eq(&w("incrementing"), &x, |i| v[i] + (i == 0) as i64)?;
        let y = cx.poly(&v.iter().enumerate().map(|(i, &a)| pmod(a + (i == 0) as i64)).collect::<P>());
        ensure!(x == y && y == x, "{} plus one and the polynomial with that coefficient compare unequal", center(v[0]));
        ensure!(x.has_inv() == y.has_inv(), "has_inv of {} plus one", center(v[0]));
        for k in 0..3 {
            let z: T = (0..N).map(|i| ((i as u64 + k + s / 1024) % 3) as u8).collect();
            let zs = refm::small(&z);
            let mut x = p;
            x.add_small(sl(&z));
            cx.eq(&w("small sum"), &x, |i| v[i] + zs[i])?;
            let mut x = p;
            x.sub_small(sl(&z));
            cx.eq(&w("small difference"), &x, |i| v[i] - zs[i])?;
            let mut x = p;
            x.small_from_trits(sl(&z));
            cx.eq(&w("small polynomial"), &x, |i| zs[i])?;
        }
        // equality: by values, whatever led to them, and with one coefficient changed
        let at = (s % N as u64) as usize;
        for d in [1, -1, s as i64 % (Q - 1) + 1] {
            let mut u = v.clone();
            u[at] = pmod(u[at] + d);
            let x = cx.poly(&u);
            ensure!(x != p && p != x, "polynomials that differ in coefficient {} compare equal", at);
            let mut e = vec![0; N];
            e[at] = pmod(-d);
            let mut y = x;
            y.add(&cx.poly(&e));
            ensure!(y == p && p == y, "equal polynomials compare unequal (coefficient {} {} and back)", at, d);
        }
        ensure!(p.has_inv() == v.iter().all(|&x| x != 0), "has_inv of the coefficients i*7919+{}", s);
        // inverses, zero replaced
        let u: P = v.iter().map(|&x| if x == 0 { 1 } else { x }).collect();
        let q = cx.poly(&u);
        ensure!(q.has_inv(), "has_inv is false without a zero");
        let mut x = q;
        x.inv();
        cx.eq(&w("inverse"), &{
            let mut y = x;
            y.conv(&q);
            y
        }, |_| 1)?;
        cov.cases(16 * N as u64);
        Ok(())
    });
    c.par("inverse-values", 13, |k, cov| {
        let u: P = all[k as usize].iter().map(|&x| if x == 0 { 1 } else { x }).collect();
        let mut x = cx.poly(&u);
        x.inv();
        let want: P = u.iter().map(|&x| refm::inv(x)).collect();
        cov.cases(N as u64);
        cx.eq(&|| "inverse".into(), &x, |i| want[i])
    });
    // a single zero at every position
    c.par("zero", N as u64, |i, cov| {
        let mut v = vec![1; N];
        v[i as usize] = 0;
        ensure!(!cx.poly(&v).has_inv(), "has_inv with a zero at {}", i);
        cov.case(true);
        Ok(())
    });
    // refusals of the decoder
    c.par("refused", N as u64, |i, cov| {
        let mut t = cx.trits(&all[i as usize % 13]);
        let full = c.thorough || i % 128 == 127 || i < 2;
        for v in H + 1..=9841 {
            if !full && ![H + 1, H + 2, 8000, 9840, 9841].contains(&v) {
                continue;
            }
            for v in [v, -v] {
                t[9 * i as usize..9 * i as usize + 9].copy_from_slice(&refm::put(v as i128, 9));
                ensure!(from(&t).is_none(), "coefficient {} at position {} is accepted", v, i);
                cov.case(true);
            }
        }
        for v in [H, -H] {
            t[9 * i as usize..9 * i as usize + 9].copy_from_slice(&refm::put(v as i128, 9));
            let p = from(&t).ok_or_else(|| format!("coefficient {} at position {} is refused", v, i))?;
            same("encoding", &to(&p), &t)?;
        }
        Ok(())
    });
    // every product of two monomials: by linearity every product
    let mono: Vec<Poly> = (0..N)
        .map(|i| {
            c.setup("transform", || {
                let mut v = vec![0; N];
                v[i] = 1;
                let mut p = cx.poly(&v);
                p.ntt();
                p
            })
        })
        .collect();
    let coef: Vec<i64> = vec![1, -1, 2, 3, H, -H, 4096, 100, -777, 5000];
    c.par("monomials", N as u64, |i, cov| {
        let i = i as usize;
        let a = coef[i % coef.len()];
        let mut v = vec![0; N];
        v[i] = a;
        let mut x = cx.poly(&v);
        let orig = x;
        x.ntt();
        let mut y = x;
        y.intt();
        ensure!(y == orig, "transform and inverse of {}x^{}", a, i);
        for j in 0..N {
            let mut z = x;
            z.conv(&mono[j]);
            z.intt();
            let (k, s) = if i + j < N { (i + j, 1) } else { (i + j - N, -1) };
            cx.eq(&|| format!("{}x^{} * x^{}", a, i, j), &z, |l| if l == k { s * a } else { 0 })?;
            cov.case(true);
        }
        cov.sample(|| format!("{}x^{} times every monomial", a, i));
        Ok(())
    });
    // every monomial coefficient
    c.par("monomial-values", c.q(64, Q as u64), |k, cov| {
        let a = if c.thorough { k as i64 } else { pmod([H - k as i64, k as i64 - 32, k as i64 * 191][k as usize % 3]) };
        for i in 0..N {
            let mut v = vec![0; N];
            v[i] = a;
            let mut x = cx.poly(&v);
            let orig = x;
            x.ntt();
            ensure!(x.has_inv() == (a != 0), "has_inv of the transform of {}x^{}", a, i);
            let mut y = x;
            y.intt();
            ensure!(y == orig, "transform and inverse of {}x^{}", a, i);
            let mut z = orig;
            z.intt();
            z.ntt();
            ensure!(z == orig, "inverse and transform of {}x^{}", a, i);
            cov.case(a != 0);
        }
        Ok(())
    });
    // dense polynomials against two references
    c.par("dense", c.q(600, 6000), |k, cov| {
        let (a, b) = if k < 66 * 66 / 11 { (shape(k % 66), shape((k * 7 + k / 66) % 66)) } else { (dense(k), dense(k + 100000)) };
        let (p, q) = (cx.poly(&a), cx.poly(&b));
        let w = refm::mul(&a, &b);
        if k % 16 == 0 {
            if w != refm::mul_schoolbook(&a, &b) {
                return Err("harness: the two reference products differ".into());
            }
        }
        cx.eq(&|| format!("product of dense polynomials {}", k), &product(&p, &q), |i| w[i])?;
        let mut x = p;
        x.ntt();
        ensure!(x.has_inv() == refm::invertible(&a), "invertibility of dense polynomial {}", k);
        let inv = x.has_inv();
        if inv {
            let mut y = x;
            y.inv();
            y.conv(&x);
            y.intt();
            cx.eq(&|| format!("dense polynomial {} times its inverse", k), &y, |i| (i == 0) as i64)?;
        }
        x.intt();
        ensure!(x == p, "transform and inverse of dense polynomial {}", k);
        x.intt();
        x.ntt();
        ensure!(x == p, "inverse and transform of dense polynomial {}", k);
        cov.case(inv);
        Ok(())
    });
    // a root at each of the 1024 points
    c.par("roots", N as u64, |j, cov| {
        let mut v = refm::eval(&dense(3));
        for x in v.iter_mut() {
            if *x == 0 {
                *x = 1;
            }
        }
        v[j as usize] = 0;
        let p = refm::interp(&v);
        let mut x = cx.poly(&p);
        x.ntt();
        ensure!(!x.has_inv(), "polynomial with root number {} is taken for invertible", j);
        v[j as usize] = 1 + j as i64;
        let mut x = cx.poly(&refm::interp(&v));
        x.ntt();
        ensure!(x.has_inv(), "polynomial without a root is not taken for invertible ({})", j);
        cov.case(true);
        Ok(())
    });
}

// ------------------------------------------------------------------ key encapsulation

pub struct Kp {
    pub sk: ntru::PrivateKey,
    pub pk: ntru::PublicKey,
    pub r: Ntru,
}
pub fn keypair(key: &[u8], nonce: &[u8]) -> (ntru::PrivateKey, ntru::PublicKey) {
    ntru::gen(&PRNG::init(sl(key)), sl(nonce))
}
pub fn kp(k: u64) -> Kp {
    let (key, nonce) = (pat(5000 + k, 243), pat(5500 + k, (k as usize * 31) % 200));
    let (sk, pk) = keypair(&key, &nonce);
    Kp { sk, pk, r: refm::ntru_gen(&key, &nonce) }
}
fn check_gen(sk: &ntru::PrivateKey, pk: &ntru::PublicKey, r: &Ntru) -> Result<(), String> {
    same("public key", &sv(pk.trits()), &r.pk)?;
    same("public key identifier", &sv(pk.id()), &r.pk[..81])?;
    ensure!(refm::ntru_pk(&r.pk).is_some(), "harness: the reference key is not valid");
    let a = ntru::PublicKey::from_slice(pk.trits()).ok_or("the generated public key is not imported from a slice")?;
    let b = ntru::PublicKey::from_trits(tr(&r.pk)).ok_or("the generated public key is not imported")?;
    ensure!(a == *pk && b == *pk, "an imported public key differs");
    let _ = sk;
    Ok(())
}
/// Both ways between implementation and reference, and implementation with itself.
fn transport(k: &Kp, key: &[u8], prng: &[u8], nonce: &[u8], n0: usize, full: bool) -> Result<T, String> {
    let (mut s, mut r) = pair(n0 as u64, n0);
    let start = s.clone();
    let rstart = r.clone();
    let mut y = vec![9u8; 9216];
    k.pk.encr_with_s(&mut s, &PRNG::init(sl(prng)), sl(nonce), sl(key), slm(&mut y));
    let want = refm::ntru_encr(&mut r, prng, &k.r.pk, nonce, key);
    same("capsule", &y, &want)?;
    same("sponge after encapsulation", &tag(&s), &tag_ref(&r))?;
    let mut d = start.clone();
    let mut got = vec![9u8; 243];
    ensure!(k.sk.decr_with_s(&mut d, sl(&y), slm(&mut got)), "a genuine capsule is not opened");
    same("opened key", &got, key)?;
    same("sponge after decapsulation", &tag(&d), &tag(&s))?;
    if full {
        let mut d = rstart.clone();
        let got = refm::ntru_decr(&mut d, &k.r, &y).ok_or("the reference does not open the capsule")?;
        same("key opened by the reference", &got, key)?;
        // the other entry points
        let mut d = start.clone();
        let mut got = vec![9u8; 243];
        ensure!(ntru::decr_sk(&mut d, sl(&k.r.f), sl(&y), slm(&mut got)), "decr_sk does not open a capsule");
        same("key opened by decr_sk", &got, key)?;
        let imp = ntru::PublicKey::from_trits(tr(&k.r.pk)).ok_or("public key is not imported")?;
        let mut d = start.clone();
        let mut y2 = vec![9u8; 9216];
        imp.encr_with_s(&mut d, &PRNG::init(sl(prng)), sl(nonce), sl(key), slm(&mut y2));
        same("capsule of the imported key", &y2, &y)?;
        if n0 == 0 {
            let mut y3 = vec![9u8; 9216];
            imp.encr(&PRNG::init(sl(prng)), sl(nonce), sl(key), slm(&mut y3));
            same("capsule made with a new sponge", &y3, &y)?;
            let mut got = vec![9u8; 243];
            ensure!(k.sk.decr(sl(&y), slm(&mut got)), "decr does not open a capsule");
            same("key opened by decr", &got, key)?;
        }
    }
    Ok(y)
}

pub fn c18(c: &Ctx) {
    // every nonce up to a length: all of them must produce a key; some need several candidates
    let depth = c.q(7u32, 9);
    let total: u64 = (0..=depth).map(|l| 3u64.pow(l)).sum();
    c.par("nonces", total, |i, cov| {
        let (mut l, mut r) = (0, i);
        while r >= 3u64.pow(l) {
            r -= 3u64.pow(l);
            l += 1;
        }
        let nonce: T = (0..l).map(|j| (r / 3u64.pow(j) % 3) as u8).collect();
        let key = pat(60, 243);
        let (sk, pk) = keypair(&key, &nonce);
        let rf = refm::ntru_gen(&key, &nonce);
        check_gen(&sk, &pk, &rf).map_err(|e| format!("nonce {}: {}", s(&nonce), e))?;
        cov.case(rf.retries > 0);
        cov.state(&("retries", rf.retries));
        cov.sample(|| format!("nonce {} takes {} more candidates", s(&nonce), rf.retries));
        let k = Kp { sk, pk, r: rf };
        let k2 = fill(i, 243);
        transport(&k, &k2, &key, &nonce, (i % 7) as usize * 81, i % 64 == 0).map_err(|e| format!("nonce {}: {}", s(&nonce), e))?;
        Ok(())
    });
    // generator keys and longer nonces
    c.par("generators", c.q(400, 6000), |i, cov| {
        let (key, nonce) = (fill(i / 4, 243), pat(i, (i as usize * 37) % 700));
        let (sk, pk) = keypair(&key, &nonce);
        let rf = refm::ntru_gen(&key, &nonce);
        check_gen(&sk, &pk, &rf)?;
        cov.case(rf.retries > 0);
        cov.state(&("retries", rf.retries));
        let k = Kp { sk, pk, r: rf };
        transport(&k, &pat(i + 1, 243), &pat(i, 243), &nonce, i as usize % 500, i % 16 == 0)?;
        Ok(())
    });
    let ks: Vec<Kp> = (0..4).map(|k| c.setup("keys", || kp(k))).collect();
    // keys: constants, cycles and every unit
    c.par("keys", 20 + c.q(243, 486) * 2, |i, cov| {
        let k = match i {
            0..=19 => fill(i, 243),
            _ => {
                let j = i as usize - 20;
                let mut k = vec![(j / 486) as u8; 243];
                k[(j / 2) % 243] = ((j / 486) + 1 + j % 2) as u8 % 3;
                k
            }
        };
        transport(&ks[i as usize % 4], &k, &pat(i, 243), &pat(i, 81), 0, i % 8 == 0)?;
        cov.case(true);
        Ok(())
    });
    // sponge states: every number of trits absorbed before
    c.par("positions", c.q(490, 1500), |n, cov| {
        let n = n as usize;
        transport(&ks[n % 4], &pat(3, 243), &pat(4, 243), &pat(5, 27), n, n % 8 == 0)?;
        cov.case(true);
        Ok(())
    });
    // nonces of every length for encapsulation
    c.par("capsule-nonces", c.q(500, 1500), |n, cov| {
        let n = n as usize;
        transport(&ks[n % 4], &pat(3, 243), &pat(4, 243), &fill(n as u64 % 7, n), 243, n % 8 == 0)?;
        cov.case(true);
        Ok(())
    });
    // all of it as parts of longer containers
    c.par("placed", PLACES * PLACES, |i, cov| {
        let (a, b) = (i % PLACES, i / PLACES);
        let k = &ks[i as usize % 4];
        let (key, prng, nonce) = (pat(74, 243), pat(75, 243), pat(76, 40));
        let (mut s, mut r) = pair(i, 100);
        let start = s.clone();
        let want = refm::ntru_encr(&mut r, &prng, &k.r.pk, &nonce, &key);
        let (kp, pp, np) = (Placed::new(&key, a), Placed::new(&prng, b), Placed::new(&nonce, a));
        let pkp = Placed::new(&k.r.pk, b);
        let pk = ntru::PublicKey::from_slice(pkp.sl()).ok_or("a public key is not imported from a part of a longer container")?;
        ensure!(pk == k.pk, "the imported key differs");
        let mut y = Placed::new(&vec![1; 9216], b);
        pk.encr_with_s(&mut s, &PRNG::init(pp.sl()), np.sl(), kp.sl(), y.slm());
        y.check("capsule", &want)?;
        same("sponge after encapsulation", &tag(&s), &tag_ref(&r))?;
        let mut got = Placed::new(&vec![1; 243], a + b);
        let mut d = start.clone();
        ensure!(k.sk.decr_with_s(&mut d, y.sl(), got.slm()), "a capsule is not opened as a part of a longer container");
        got.check("opened key", &key)?;
        let f = Placed::new(&k.r.f, a);
        let mut d = start.clone();
        let mut got = Placed::new(&vec![1; 243], b);
        ensure!(ntru::decr_sk(&mut d, f.sl(), y.sl(), got.slm()), "a capsule is not opened by a part of a longer container");
        got.check("opened key", &key)?;
        let (gk, gr) = ntru::gen(&PRNG::init(pp.sl()), np.sl());
        if i % 16 == 0 {
            check_gen(&gk, &gr, &refm::ntru_gen(&prng, &nonce))?;
        }
        for (what, q, w) in [("key", &kp, &key), ("generator key", &pp, &prng), ("nonce", &np, &nonce), ("public key", &pkp, &k.r.pk), ("capsule", &y, &want)] {
            q.check(what, w)?;
        }
        cov.case(true);
        Ok(())
    });
    // nothing of one generation or capsule may stay for the next: every ordered pair of
    // (generator key, nonce), and of (public key, generator key, nonce, key)
    c.par("by-turns", 2 * 16 * 16, |i, cov| {
        let (x, y) = ((i / 2) as usize / 16, (i / 2) as usize % 16);
        let gk = |v: usize| pat(70 + v as u64, 243);
        let nn = |v: usize| [vec![], pat(71, 27), pat(72, 81), pat(71, 81)][v].clone();
        if i % 2 == 0 {
            for v in [x, y, x].iter() {
                let (key, nonce) = (gk(v / 4), nn(v % 4));
                let (sk, pk) = keypair(&key, &nonce);
                let r = refm::ntru_gen(&key, &nonce);
                check_gen(&sk, &pk, &r)?;
                let k = Kp { sk, pk, r };
                transport(&k, &pat(3, 243), &key, &nonce, 81, false)?;
            }
        } else {
            for v in [x, y, x].iter() {
                transport(&ks[v & 1], &pat(73 + (v / 2 & 1) as u64, 243), &gk(v / 4 & 1), &nn(2 + (v / 8)), 81, false)?;
            }
        }
        cov.case(x != y);
        Ok(())
    });
}

fn opens(sk: &ntru::PrivateKey, st: &Spongos, y: &[u8]) -> bool {
    let mut s = st.clone();
    let mut k = vec![0u8; 243];
    sk.decr_with_s(&mut s, sl(y), slm(&mut k))
}

pub fn c19(c: &Ctx) {
    let ks: Vec<Kp> = (0..24).map(|k| c.setup("keys", || kp(k))).collect();
    let st = pair(1, 300).0;
    let nc = c.q(2usize, 6);
    let cap: Vec<T> = (0..nc)
        .map(|i| {
            c.setup("capsules", || {
                let mut y = vec![9u8; 9216];
                ks[i].pk.encr_with_s(&mut st.clone(), &PRNG::init(sl(&pat(9, 243))), sl(&pat(10, 81)), sl(&fill(i as u64 + 3, 243)), slm(&mut y));
                y
            })
        })
        .collect();
    c.par("genuine", nc as u64, |i, cov| {
        let i = i as usize;
        cov.case(false);
        ensure!(opens(&ks[i].sk, &st, &cap[i]), "genuine capsule refused");
        Ok(())
    });
    // every single-trit change
    c.par("flips", nc as u64 * 9216, |i, cov| {
        let (k, p) = (i as usize / 9216, i as usize % 9216);
        let mut y = cap[k].clone();
        // now and then the genuine one comes first, by the same thread
        ensure!(p % 16 != 5 || opens(&ks[k].sk, &st, &y), "genuine capsule refused");
        for _ in 0..2 {
            y[p] = (y[p] + 1) % 3;
            ensure!(!opens(&ks[k].sk, &st, &y), "capsule {} with trit {} changed is opened", k, p);
            cov.case(true);
        }
        cov.sample(|| format!("capsule {} with trit {} changed", k, p));
        Ok(())
    });
    // every coefficient changed by small steps, sign, and to extremes
    c.par("coefficients", 1024 * nc as u64, |i, cov| {
        let (k, p) = (i as usize / 1024, i as usize % 1024);
        let v = refm::get(&cap[k][9 * p..9 * p + 9]) as i64;
        let mut seen = vec![v];
        for d in [v + 1, v - 1, v + 2, v - 2, v + 3, v - 3, v + 9, v - 27, -v, 0, H, -H, v + H] {
            let d = center(d);
            if seen.contains(&d) {
                continue;
            }
            seen.push(d);
            let mut y = cap[k].clone();
            y[9 * p..9 * p + 9].copy_from_slice(&refm::put(d as i128, 9));
            ensure!(!opens(&ks[k].sk, &st, &y), "capsule {} with coefficient {} set to {} instead of {} is opened", k, p, d, v);
            cov.case(true);
        }
        // a change that the private key cannot see in the product with 3g/(1+3f): r replaced
        let h = refm::poly_from(&ks[k].r.pk).unwrap();
        let yp = refm::poly_from(&cap[k]).unwrap();
        let y2: P = (0..1024).map(|j| yp[j] + if j >= p { h[j - p] } else { -h[j + 1024 - p] }).collect();
        ensure!(!opens(&ks[k].sk, &st, &refm::poly_trits(&y2)), "capsule {} with the randomness changed by x^{} is opened", k, p);
        cov.case(true);
        // out of range
        for d in [H + 1, -H - 1, 9841, -9841, v + Q, v - Q] {
            if d.abs() > 9841 {
                continue;
            }
            let mut y = cap[k].clone();
            y[9 * p..9 * p + 9].copy_from_slice(&refm::put(d as i128, 9));
            ensure!(!opens(&ks[k].sk, &st, &y), "capsule {} with the out-of-range coefficient {} at {} is opened", k, d, p);
            cov.case(true);
        }
        Ok(())
    });
    // every out-of-range value
    c.par("out-of-range", (9841 - H) as u64, |i, cov| {
        let k = i as usize % nc;
        for v in [H + 1 + i as i64, -(H + 1 + i as i64)] {
            for p in [0, 511, 1023, i as usize % 1024] {
                let mut y = cap[k].clone();
                y[9 * p..9 * p + 9].copy_from_slice(&refm::put(v as i128, 9));
                ensure!(!opens(&ks[k].sk, &st, &y), "capsule with coefficient {} at {} is opened", v, p);
                cov.case(true);
            }
        }
        Ok(())
    });
    // two coefficients exchanged, rotated capsules, pairs of changes that cancel in sum
    c.par("rearranged", 1023 * nc as u64, |i, cov| {
        let (k, p) = (i as usize / 1023, i as usize % 1023);
        let mut y = cap[k].clone();
        for j in 0..9 {
            y.swap(9 * p + j, 9 * p + 9 + j);
        }
        if y != cap[k] {
            ensure!(!opens(&ks[k].sk, &st, &y), "capsule with coefficients {} and {} exchanged is opened", p, p + 1);
            cov.case(true);
        }
        let mut y = cap[k].clone();
        y.rotate_left(9 * (p + 1));
        ensure!(!opens(&ks[k].sk, &st, &y), "capsule rotated by {} is opened", p + 1);
        cov.case(true);
        Ok(())
    });
    // arbitrary capsules
    c.par("arbitrary", c.q(400, 4000), |i, cov| {
        let y = match i {
            0..=2 => vec![i as u8; 9216],
            3..=99 => fill(i, 9216),
            _ => refm::poly_trits(&dense(i)),
        };
        ensure!(!opens(&ks[i as usize % 24].sk, &st, &y), "arbitrary capsule {} is opened", i);
        cov.case(true);
        Ok(())
    });
    // other private keys, other public keys
    c.par("other-keys", 24 * nc as u64, |i, cov| {
        let (k, j) = (i as usize / 24, i as usize % 24);
        ensure!(opens(&ks[j].sk, &st, &cap[k]) == (j == k), "capsule {} with private key {}", k, j);
        cov.case(j != k);
        // private keys one trit away
        for p in (j..1024).step_by(24) {
            let mut f = ks[k].r.f.clone();
            // the genuine key first, in the same thread
            let mut kk = vec![0u8; 243];
            ensure!(ntru::decr_sk(&mut st.clone(), sl(&f), sl(&cap[k]), slm(&mut kk)), "capsule {} is not opened with its own key", k);
            for _ in 0..2 {
                f[p] = (f[p] + 1) % 3;
                let mut kk = vec![0u8; 243];
                ensure!(!ntru::decr_sk(&mut st.clone(), sl(&f), sl(&cap[k]), slm(&mut kk)), "capsule {} is opened with trit {} of the private key changed", k, p);
                cov.case(true);
            }
        }
        Ok(())
    });
    // other sponge states
    c.par("other-states", 300 + 3, |i, cov| {
        let base = pat(1, 300);
        for k in 0..nc {
            if i % 5 == 0 {
                ensure!(opens(&ks[k].sk, &st, &cap[k]), "capsule {} is not opened in its own sponge state", k);
            }
            for d in 1..3u8 {
                let mut x = base.clone();
                match i as usize {
                    p @ 0..=299 => x[p] = (x[p] + d) % 3,
                    300 => x.push(d),
                    301 => x.truncate(300 - d as usize),
                    _ => x.extend(vec![0; 400]),
                }
                let mut s = Spongos::init();
                s.absorb(sl(&x));
                if i == 302 && d == 2 {
                    s = st.clone();
                    s.commit();
                }
                ensure!(!opens(&ks[k].sk, &s, &cap[k]), "capsule {} is opened in sponge state variant {}/{}", k, i, d);
                cov.case(true);
            }
        }
        Ok(())
    });
    // imports of public keys
    let import = |t: &[u8]| -> Result<bool, String> {
        let a = ntru::PublicKey::from_trits(tr(t)).is_some();
        let b = ntru::PublicKey::from_slice(sl(t)).is_some();
        ensure!(a == b, "from_trits and from_slice differ");
        Ok(a)
    };
    let import_all = |t: &[u8]| -> Result<bool, String> {
        let a = import(t)?;
        let s0 = pair(2, 10).0;
        let mut s1 = s0.clone();
        let x = ntru::PublicKey::unwrap_absorb_sized(&mut s1, &mut sl(t)).is_ok();
        let mut y = vec![0u8; t.len()];
        s0.clone().encr(sl(t), slm(&mut y));
        let m = ntru::PublicKey::unwrap_mask_sized(&mut s0.clone(), &mut sl(&y)).is_ok();
        ensure!(x == a && m == a, "import {} differs from reading a field: absorbed {}, masked {}", a, x, m);
        // over another, valid key
        let (mut xk, mut mk) = (ks[23].pk.clone(), ks[22].pk.clone());
        let x = xk.unwrap_absorb(&mut s0.clone(), &mut sl(t)).is_ok();
        let m = mk.unwrap_mask(&mut s0.clone(), &mut sl(&y)).is_ok();
        ensure!(x == a && m == a, "import {} differs from reading a field in place: absorbed {}, masked {}", a, x, m);
        Ok(a)
    };
    // every way to import a valid key gives one that encapsulates alike
    let works = |t: &[u8], i: u64| -> Result<(), String> {
        let s0 = pair(2, 10).0;
        let mut y = vec![0u8; t.len()];
        s0.clone().encr(sl(t), slm(&mut y));
        let (mut xk, mut mk) = (ks[23].pk.clone(), ks[22].pk.clone());
        xk.unwrap_absorb(&mut s0.clone(), &mut sl(t)).map_err(|_| "absorbed")?;
        mk.unwrap_mask(&mut s0.clone(), &mut sl(&y)).map_err(|_| "masked")?;
        let all = [
            ntru::PublicKey::from_trits(tr(t)).ok_or("from_trits")?,
            ntru::PublicKey::from_slice(sl(t)).ok_or("from_slice")?,
            ntru::PublicKey::unwrap_absorb_sized(&mut s0.clone(), &mut sl(t)).map_err(|_| "absorbed")?,
            ntru::PublicKey::unwrap_mask_sized(&mut s0.clone(), &mut sl(&y)).map_err(|_| "masked")?,
            xk,
            mk,
        ];
        let (prng, nonce, key) = (pat(i, 243), pat(i + 1, 20), pat(i + 2, 243));
        let want = refm::ntru_encr(&mut pair(0, 0).1, &prng, t, &nonce, &key);
        for (j, pk) in all.iter().enumerate() {
            same("imported trits", &sv(pk.trits()), t)?;
            let mut y = vec![9u8; 9216];
            pk.encr_with_s(&mut pair(0, 0).0, &PRNG::init(sl(&prng)), sl(&nonce), sl(&key), slm(&mut y));
            same(&format!("capsule of a key imported in way {}", j), &y, &want)?;
        }
        Ok(())
    };
    c.par("import-lengths", 9300, |n, cov| {
        let n = n as usize;
        let t: T = ks[0].r.pk.iter().chain(&ks[1].r.pk).take(n).copied().collect();
        ensure!(import(&t)? == (n == 9216), "public key of {} trits", n);
        cov.case(n != 9216);
        Ok(())
    });
    c.par("import-range", 1024, |p, cov| {
        let p = p as usize;
        let k = &ks[p % 24];
        for v in [H + 1, -H - 1, 9841, -9841, H + 500, -8000] {
            let mut t = k.r.pk.clone();
            t[9 * p..9 * p + 9].copy_from_slice(&refm::put(v as i128, 9));
            ensure!(!import_all(&t)?, "public key with coefficient {} at {} is imported", v, p);
            cov.case(true);
        }
        for v in [H, -H, 0, 1] {
            let mut t = k.r.pk.clone();
            t[9 * p..9 * p + 9].copy_from_slice(&refm::put(v as i128, 9));
            let want = refm::ntru_pk(&t).is_some();
            ensure!(import_all(&t)? == want, "import of a public key with coefficient {} at {} should give {}", v, p, want);
            cov.case(!want);
        }
        Ok(())
    });
    c.par("import-roots", 1024, |j, cov| {
        let j = j as usize;
        let mut v = ks[j % 24].r.hv.clone();
        v[j] = 0;
        let t = refm::poly_trits(&refm::interp(&v));
        ensure!(!import_all(&t)?, "public key with root number {} is imported", j);
        v[(j * 5 + 1) % 1024] = 0;
        ensure!(!import_all(&refm::poly_trits(&refm::interp(&v)))?, "public key with two roots is imported");
        v.iter_mut().enumerate().for_each(|(i, x)| if *x == 0 { *x = 1 + i as i64 });
        let t = refm::poly_trits(&refm::interp(&v));
        ensure!(import_all(&t)?, "an invertible public key is refused ({})", j);
        // and an imported key works like the reference says
        works(&t, j as u64)?;
        works(&ks[j % 22].r.pk, j as u64)?;
        cov.cases(2);
        Ok(())
    });
    c.par("import-arbitrary", c.q(300, 3000), |i, cov| {
        let t = match i {
            0..=2 => vec![i as u8; 9216],
            3..=59 => fill(i, 9216),
            60..=125 => refm::poly_trits(&shape(i - 60)),
            _ => refm::poly_trits(&dense(i)),
        };
        let want = refm::ntru_pk(&t).is_some();
        ensure!(import_all(&t)? == want, "import of arbitrary trits number {} should give {}", i, want);
        cov.case(!want);
        Ok(())
    });
    // the same in guarded memory and bounded space
    c.one("memory", |cov| {
        let mut f = Fenced::new(9216);
        for k in 0..nc {
            let b = f.load(&cap[k]);
            let (_, m) = peak(|| opens(&ks[k].sk, &st, b));
            ensure!(m < 1 << 20, "opening a capsule takes {} bytes", m);
            let b = f.load(&ks[k].r.pk);
            ensure!(ntru::PublicKey::from_slice(sl(b)).is_some(), "import");
            cov.case(true);
        }
        Ok(())
    });
}
