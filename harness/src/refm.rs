//! Reference model of the whole stack, written from the specifications and message documentation,
//! sharing no code with the crate under test. Trits are 0, 1, 2 where 2 stands for -1.

use crate::rc::RC;
use std::sync::OnceLock;

pub type T = Vec<u8>;

pub const W: usize = 729;
pub const RATE: usize = 486;

// ------------------------------------------------------------------ Troika

const SBOX: [u8; 27] =
    [6, 25, 17, 5, 15, 10, 4, 20, 24, 0, 1, 2, 9, 22, 26, 18, 16, 14, 3, 13, 23, 7, 11, 12, 8, 21, 19];
const LANES: [usize; 27] = [
    19, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4,
];

struct Tab {
    /// Where the trit at each position goes under ShiftRows then ShiftLanes: `src[dst]`.
    src: [u16; W],
    rc: [[u8; 243]; 24],
    sbox: [[u8; 3]; 27],
}

fn tab() -> &'static Tab {
    static T: OnceLock<Tab> = OnceLock::new();
    T.get_or_init(|| {
        let mut src = [0u16; W];
        for z in 0..27 {
            for row in 0..3 {
                for col in 0..9 {
                    // ShiftRows: the trit at column x of row r moves to column x + 3r.
                    let c2 = (col + 3 * row) % 9;
                    // ShiftLanes: the lane (row, c2) is rotated by its offset.
                    let z2 = (z + LANES[row * 9 + c2]) % 27;
                    src[z2 * 27 + row * 9 + c2] = (z * 27 + row * 9 + col) as u16;
                }
            }
        }
        let mut rc = [[0u8; 243]; 24];
        for r in 0..24 {
            for c in 0..9 {
                for (z, b) in RC[r][c].bytes().enumerate() {
                    rc[r][z * 9 + c] = b - b'0';
                }
            }
        }
        let mut sbox = [[0u8; 3]; 27];
        for i in 0..27 {
            let o = SBOX[i];
            sbox[i] = [o / 9, o / 3 % 3, o % 3];
        }
        Tab { src, rc, sbox }
    })
}

pub fn troika(s: &mut [u8; W]) {
    let t = tab();
    let mut n = [0u8; W];
    let mut p = [0u8; 243];
    for r in 0..24 {
        for k in 0..243 {
            let a = &mut s[3 * k..3 * k + 3];
            let o = &t.sbox[(9 * a[0] + 3 * a[1] + a[2]) as usize];
            a.copy_from_slice(o);
        }
        for i in 0..W {
            n[i] = s[t.src[i] as usize];
        }
        for z in 0..27 {
            for c in 0..9 {
                p[z * 9 + c] = (n[z * 27 + c] + n[z * 27 + 9 + c] + n[z * 27 + 18 + c]) % 3;
            }
        }
        for z in 0..27 {
            let z1 = (z + 1) % 27;
            for c in 0..9 {
                let add = p[z * 9 + (c + 8) % 9] + p[z1 * 9 + (c + 1) % 9];
                s[z * 27 + c] = (n[z * 27 + c] + add + t.rc[r][z * 9 + c]) % 3;
                s[z * 27 + 9 + c] = (n[z * 27 + 9 + c] + add) % 3;
                s[z * 27 + 18 + c] = (n[z * 27 + 18 + c] + add) % 3;
            }
        }
    }
}

/// The Troika hash sponge with rate 243 and padding 1 0*.
#[derive(Clone)]
pub struct Hash {
    s: [u8; W],
    buf: T,
    out: T,
}
impl Hash {
    pub fn new() -> Self {
        Hash { s: [0; W], buf: vec![], out: vec![] }
    }
    pub fn absorb(&mut self, x: &[u8]) {
        self.buf.extend_from_slice(x);
    }
    pub fn finalize(&mut self) {
        let mut m = std::mem::take(&mut self.buf);
        m.push(1);
        while m.len() % 243 != 0 {
            m.push(0);
        }
        for b in m.chunks(243) {
            self.s[..243].copy_from_slice(b);
            troika(&mut self.s);
        }
        self.out = self.s[..243].to_vec();
    }
    pub fn squeeze(&mut self, n: usize) -> T {
        while self.out.len() < n {
            troika(&mut self.s);
            let b = self.s[..243].to_vec();
            self.out.extend(b);
        }
        let r = self.out[..n].to_vec();
        self.out.drain(..n);
        r
    }
}
pub fn troika_hash(m: &[u8], n: usize) -> T {
    let mut h = Hash::new();
    h.absorb(m);
    h.finalize();
    h.squeeze(n)
}

// ------------------------------------------------------------------ Spongos

/// Overwrite-mode duplex over Troika: rate 486, capacity 243.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Sp {
    pub s: [u8; W],
    pub pos: usize,
}
impl Sp {
    pub fn new() -> Self {
        Sp { s: [0; W], pos: 0 }
    }
    fn step(&mut self) {
        self.pos += 1;
        if self.pos == RATE {
            troika(&mut self.s);
            self.pos = 0;
        }
    }
    pub fn absorb(&mut self, x: &[u8]) {
        for &t in x {
            self.s[self.pos] = t;
            self.step();
        }
    }
    pub fn squeeze(&mut self, n: usize) -> T {
        let mut y = vec![0; n];
        for t in y.iter_mut() {
            *t = self.s[self.pos];
            self.s[self.pos] = 0;
            self.step();
        }
        y
    }
    pub fn encr(&mut self, x: &[u8]) -> T {
        x.iter()
            .map(|&t| {
                let y = (t + self.s[self.pos]) % 3;
                self.s[self.pos] = t;
                self.step();
                y
            })
            .collect()
    }
    pub fn decr(&mut self, y: &[u8]) -> T {
        y.iter()
            .map(|&t| {
                let x = (3 + t - self.s[self.pos]) % 3;
                self.s[self.pos] = x;
                self.step();
                x
            })
            .collect()
    }
    pub fn commit(&mut self) {
        if self.pos != 0 {
            troika(&mut self.s);
            self.pos = 0;
        }
    }
    pub fn join(&mut self, o: &mut Sp) {
        let x = o.squeeze(243);
        self.absorb(&x);
    }
    pub fn inner(&self) -> T {
        assert_eq!(0, self.pos);
        self.s[RATE..].to_vec()
    }
    pub fn from_inner(x: &[u8]) -> Self {
        let mut s = Sp::new();
        s.s[RATE..].copy_from_slice(x);
        s
    }
}

pub fn hash(xs: &[&[u8]], n: usize) -> T {
    let mut s = Sp::new();
    for x in xs {
        s.absorb(x);
    }
    s.commit();
    s.squeeze(n)
}

pub fn prng(key: &[u8], nonces: &[&[u8]], n: usize) -> T {
    let mut s = Sp::new();
    s.absorb(key);
    for x in nonces {
        s.absorb(x);
    }
    s.commit();
    s.squeeze(n)
}

// ------------------------------------------------------------------ integers

/// `n` trits of the balanced ternary form of `v`, lowest first.
pub fn put(mut v: i128, n: usize) -> T {
    let mut o = Vec::with_capacity(n);
    for _ in 0..n {
        let r = v.rem_euclid(3);
        o.push(r as u8);
        v = (v - if r == 2 { -1 } else { r }) / 3;
    }
    o
}
pub fn get(t: &[u8]) -> i128 {
    t.iter().rev().fold(0, |a, &t| 3 * a + if t == 2 { -1 } else { t as i128 })
}
pub fn from_str(s: &str) -> T {
    let mut o = vec![];
    for c in s.chars() {
        let v = "9ABCDEFGHIJKLMNOPQRSTUVWXYZ".find(c).unwrap() as i128;
        o.extend(put(if v > 13 { v - 27 } else { v }, 3));
    }
    o
}
pub fn to_str(t: &[u8]) -> String {
    t.chunks(3)
        .map(|c| {
            let v = get(c);
            "9ABCDEFGHIJKLMNOPQRSTUVWXYZ".as_bytes()[v.rem_euclid(27) as usize] as char
        })
        .collect()
}

// ------------------------------------------------------------------ size_t

pub const SIZE_MAX: i128 = (27i128.pow(13) - 1) / 2;

pub fn size_digits(n: i128) -> usize {
    assert!(0 <= n && n <= SIZE_MAX);
    (0..).find(|&d| n <= (27i128.pow(d as u32) - 1) / 2).unwrap()
}
pub fn size_enc(n: i128) -> T {
    let d = size_digits(n);
    let mut o = put(d as i128, 3);
    o.extend(put(n, 3 * d));
    o
}
/// Decoded value and its length.
pub fn size_dec(b: &[u8]) -> Option<(i128, usize)> {
    if b.len() < 3 {
        return None;
    }
    let d = get(&b[..3]);
    if !(0..=13).contains(&d) {
        return None;
    }
    let d = d as usize;
    if b.len() < 3 + 3 * d {
        return None;
    }
    if d > 0 && get(&b[3 * d..3 + 3 * d]) <= 0 {
        return None;
    }
    Some((get(&b[3..3 + 3 * d]), 3 + 3 * d))
}

// ------------------------------------------------------------------ WOTS

pub fn chain(x: &[u8], n: i128) -> T {
    let mut h = x.to_vec();
    for _ in 0..n {
        h = hash(&[&h], 162);
    }
    h
}
/// The 78 hash trytes and the 3 checksum trytes.
pub fn wots_digits(h: &[u8]) -> Vec<i128> {
    assert_eq!(234, h.len());
    let mut d: Vec<i128> = h.chunks(3).map(get).collect();
    let sum: i128 = d.iter().sum();
    let c = put(-sum, 9);
    d.extend(c.chunks(3).map(get));
    d
}
pub fn wots_sk(key: &[u8], nonces: &[&[u8]]) -> T {
    prng(key, nonces, 81 * 162)
}
pub fn wots_pk(sk: &[u8]) -> T {
    let ends: Vec<T> = sk.chunks(162).map(|p| chain(p, 26)).collect();
    hash(&ends.iter().map(|v| &v[..]).collect::<Vec<_>>(), 243)
}
pub fn wots_sign(sk: &[u8], h: &[u8]) -> T {
    let d = wots_digits(h);
    sk.chunks(162).zip(d).flat_map(|(p, d)| chain(p, 13 + d)).collect()
}
pub fn wots_recover(h: &[u8], sig: &[u8]) -> T {
    let d = wots_digits(h);
    let ends: Vec<T> = sig.chunks(162).zip(d).map(|(p, d)| chain(p, 13 - d)).collect();
    hash(&ends.iter().map(|v| &v[..]).collect::<Vec<_>>(), 243)
}

// ------------------------------------------------------------------ MSS

pub struct Mss {
    pub h: usize,
    pub sks: Vec<T>,
    /// `lv[k]` is the level `k` above the leaves.
    pub lv: Vec<Vec<T>>,
    pub skn: usize,
}
pub fn mss_header(h: usize, skn: usize) -> T {
    let mut o = put(h as i128, 6)[..4].to_vec();
    o.extend(&put(skn as i128, 18)[..14]);
    o
}
pub fn sig_size(h: usize) -> usize {
    18 + 81 * 162 + 243 * h
}
impl Mss {
    pub fn new(key: &[u8], nonce: &[u8], h: usize) -> Self {
        let sks: Vec<T> = (0..1 << h).map(|i| wots_sk(key, &[nonce, &put(i as i128, 18)])).collect();
        let mut lv = vec![sks.iter().map(|s| wots_pk(s)).collect::<Vec<_>>()];
        for _ in 0..h {
            let l = lv.last().unwrap().chunks(2).map(|c| hash(&[&c[0], &c[1]], 243)).collect();
            lv.push(l);
        }
        Mss { h, sks, lv, skn: 0 }
    }
    pub fn pk(&self) -> &T {
        &self.lv[self.h][0]
    }
    pub fn apath(&self, i: usize) -> T {
        (0..self.h).flat_map(|k| self.lv[k][(i >> k) ^ 1].clone()).collect()
    }
    pub fn sign(&self, hash: &[u8]) -> T {
        let mut o = mss_header(self.h, self.skn);
        o.extend(wots_sign(&self.sks[self.skn], hash));
        o.extend(self.apath(self.skn));
        o
    }
}
/// Public key and signature size.
pub fn mss_recover(hash_: &[u8], sig: &[u8]) -> Option<(T, usize)> {
    if sig.len() < 18 {
        return None;
    }
    let h = get(&sig[..4]);
    let i = get(&sig[4..18]);
    if h < 0 || i < 0 || i >= 1i128 << h {
        return None;
    }
    let n = sig_size(h as usize);
    if sig.len() < n {
        return None;
    }
    let mut k = wots_recover(hash_, &sig[18..18 + 81 * 162]);
    for (j, a) in sig[18 + 81 * 162..n].chunks(243).enumerate() {
        k = if i >> j & 1 == 0 { hash(&[&k, a], 243) } else { hash(&[a, &k], 243) };
    }
    Some((k, n))
}

// ------------------------------------------------------------------ NTRU

pub const Q: i64 = 12289;
pub const N: usize = 1024;
pub type P = Vec<i64>;

/// x^1024 + 1 splits into x - 7^(2j+1): powers of 7 modulo q (7 has order 2048).
fn pw() -> &'static [i64] {
    static T: OnceLock<Vec<i64>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![1i64; 2048];
        for i in 1..2048 {
            v[i] = v[i - 1] * 7 % Q;
        }
        assert_eq!(Q - 1, v[1024]);
        v
    })
}
pub fn pmod(x: i64) -> i64 {
    x.rem_euclid(Q)
}
pub fn inv(a: i64) -> i64 {
    let (mut r, mut b, mut e) = (1, pmod(a), Q - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
/// Values at the 1024 roots, by recursive even/odd evaluation.
pub fn eval(p: &[i64]) -> P {
    // values of p at 7^((2j+1) * step), j = 0..len
    fn rec(p: &[i64], step: usize) -> P {
        let n = p.len();
        if n == 1 {
            return vec![p[0]];
        }
        let e: P = p.iter().step_by(2).copied().collect();
        let o: P = p.iter().skip(1).step_by(2).copied().collect();
        let (ev, ov) = (rec(&e, 2 * step), rec(&o, 2 * step));
        let pw = pw();
        (0..n).map(|j| pmod(ev[j % (n / 2)] + pw[((2 * j + 1) * step) % 2048] * ov[j % (n / 2)])).collect()
    }
    rec(p, 1)
}
/// Polynomial with the given values at the roots.
pub fn interp(v: &[i64]) -> P {
    // c_i = 1/n sum_j v_j g^{-(2j+1) i}: evaluate with the recursion below.
    fn rec(v: &[i64], step: usize) -> P {
        let n = v.len();
        if n == 1 {
            return vec![v[0]];
        }
        // split p = e(x^2) + x o(x^2); v_j and v_{j+n/2} are at opposite points
        let pw = pw();
        let half = inv(2);
        let (mut e, mut o) = (vec![0; n / 2], vec![0; n / 2]);
        for j in 0..n / 2 {
            let (a, b) = (v[j], v[j + n / 2]);
            e[j] = pmod((a + b) * half);
            let w = pw[(2048 - ((2 * j + 1) * step) % 2048) % 2048];
            o[j] = pmod(pmod((a - b) * half) * w);
        }
        let (e, o) = (rec(&e, 2 * step), rec(&o, 2 * step));
        (0..n).map(|i| if i % 2 == 0 { e[i / 2] } else { o[i / 2] }).collect()
    }
    rec(v, 1)
}
pub fn mul(a: &[i64], b: &[i64]) -> P {
    let (x, y) = (eval(a), eval(b));
    interp(&x.iter().zip(y).map(|(a, b)| a * b % Q).collect::<Vec<_>>())
}
/// Product by the definition.
pub fn mul_schoolbook(a: &[i64], b: &[i64]) -> P {
    let mut r = vec![0i64; N];
    for i in 0..N {
        if a[i] == 0 {
            continue;
        }
        for j in 0..N {
            let m = a[i] * b[j] % Q;
            if i + j < N {
                r[i + j] += m
            } else {
                r[i + j - N] -= m
            }
        }
    }
    r.iter().map(|&x| pmod(x)).collect()
}
pub fn small(t: &[u8]) -> P {
    t.iter().map(|&t| if t == 2 { -1 } else { t as i64 }).collect()
}
pub fn center(x: i64) -> i64 {
    let x = pmod(x);
    if x > Q / 2 {
        x - Q
    } else {
        x
    }
}
pub fn poly_trits(p: &[i64]) -> T {
    p.iter().flat_map(|&c| put(center(c) as i128, 9)).collect()
}
pub fn poly_from(t: &[u8]) -> Option<P> {
    let p: P = t.chunks(9).map(|c| get(c) as i64).collect();
    p.iter().all(|c| c.abs() <= Q / 2).then_some(p)
}
pub fn invertible(p: &[i64]) -> bool {
    eval(p).iter().all(|&v| v != 0)
}
#[derive(Clone)]
pub struct Ntru {
    pub f: T,
    pub pk: T,
    pub retries: usize,
    /// Values of 1+3f and of the public polynomial at the roots.
    pub fv: P,
    pub hv: P,
}
pub fn ntru_gen(key: &[u8], nonce: &[u8]) -> Ntru {
    for i in 0..3usize.pow(10) {
        // unsigned 81-trit counter
        let mut c = vec![0u8; 81];
        let mut v = i;
        for t in c.iter_mut() {
            *t = (v % 3) as u8;
            v /= 3;
        }
        let r = prng(key, &[nonce, &c], 2048);
        let mut f: P = small(&r[..1024]).iter().map(|x| 3 * x).collect();
        f[0] += 1;
        let g: P = small(&r[1024..]).iter().map(|x| 3 * x).collect();
        let (fv, gv) = (eval(&f), eval(&g));
        if fv.iter().all(|&x| x != 0) && gv.iter().all(|&x| x != 0) {
            let hv: P = fv.iter().zip(&gv).map(|(f, g)| g * inv(*f) % Q).collect();
            let pk = poly_trits(&interp(&hv));
            return Ntru { f: r[..1024].to_vec(), pk, retries: i, fv, hv };
        }
    }
    unreachable!()
}
pub fn ntru_pk(pk: &[u8]) -> Option<P> {
    if pk.len() != 9216 {
        return None;
    }
    let v = eval(&poly_from(pk)?);
    v.iter().all(|&x| x != 0).then_some(v)
}
pub fn ntru_encr(s: &mut Sp, key: &[u8], pk: &[u8], nonce: &[u8], k: &[u8]) -> T {
    let hv = eval(&poly_from(pk).unwrap());
    let r = prng(key, &[pk, k, nonce], 1024);
    let rv = eval(&small(&r));
    let t = interp(&rv.iter().zip(hv).map(|(a, b)| a * b % Q).collect::<Vec<_>>());
    s.absorb(&poly_trits(&t));
    s.commit();
    let mut ae = s.encr(k);
    ae.extend(s.squeeze(1024 - 243));
    poly_trits(&t.iter().zip(small(&ae)).map(|(a, b)| a + b).collect::<Vec<_>>())
}
pub fn ntru_decr(s: &mut Sp, n: &Ntru, y: &[u8]) -> Option<T> {
    let p = poly_from(y)?;
    let v = eval(&p);
    let r = interp(&v.iter().zip(&n.fv).map(|(a, b)| a * b % Q).collect::<Vec<_>>());
    let kt: T = r.iter().map(|&c| center(c).rem_euclid(3) as u8).collect();
    let rh: P = p.iter().zip(small(&kt)).map(|(a, b)| a - b).collect();
    s.absorb(&poly_trits(&rh));
    s.commit();
    let k = s.decr(&kt[..243]);
    let ok = s.squeeze(1024 - 243) == kt[243..];
    ok.then_some(k)
}

// ------------------------------------------------------------------ PB3 fields and messages

/// A writer: sponge and output.
pub struct Wr<'a> {
    pub s: &'a mut Sp,
    pub b: T,
}
impl<'a> Wr<'a> {
    pub fn new(s: &'a mut Sp) -> Self {
        Wr { s, b: vec![] }
    }
    pub fn absorb(&mut self, x: &[u8]) {
        self.s.absorb(x);
        self.b.extend_from_slice(x);
    }
    pub fn mask(&mut self, x: &[u8]) {
        let y = self.s.encr(x);
        self.b.extend(y);
    }
    pub fn absorb_trytes(&mut self, x: &[u8]) {
        let n = size_enc(x.len() as i128 / 3);
        self.absorb(&n);
        self.absorb(x);
    }
    pub fn mask_trytes(&mut self, x: &[u8]) {
        let n = size_enc(x.len() as i128 / 3);
        self.mask(&n);
        self.mask(x);
    }
    pub fn join(&mut self, msgid: &[u8], slink: &mut Sp) {
        self.s.join(slink);
        self.b.extend_from_slice(msgid);
    }
    pub fn mac(&mut self) {
        self.s.commit();
        let t = self.s.squeeze(243);
        self.b.extend(t);
    }
    pub fn mssig(&mut self, sk: &Mss) {
        self.s.commit();
        let h = self.s.squeeze(234);
        self.b.extend(sk.sign(&h));
    }
    pub fn ntrukem(&mut self, prng: &[u8], pk: &[u8], nonce: &[u8], k: &[u8]) {
        let y = ntru_encr(self.s, prng, pk, nonce, k);
        self.b.extend(y);
    }

    // messages
    pub fn header(&mut self, typ: &[u8], appinst: &[u8], msgid: &[u8]) {
        self.absorb(&put(1, 3));
        self.absorb_trytes(typ);
        self.s.absorb(appinst);
        self.s.absorb(msgid);
    }
    pub fn announce(&mut self, sk: &Mss, ntru_pk: Option<&[u8]>) {
        self.absorb(sk.pk());
        match ntru_pk {
            None => self.absorb(&put(0, 3)),
            Some(p) => {
                self.absorb(&put(1, 3));
                self.absorb(p);
            }
        }
        self.mssig(sk);
    }
    pub fn change_key(&mut self, msgid: &[u8], slink: &mut Sp, sk: &Mss, linked: &Mss) {
        self.join(msgid, slink);
        self.absorb(sk.pk());
        self.s.commit();
        let h = self.s.squeeze(234);
        self.b.extend(sk.sign(&h));
        self.b.extend(linked.sign(&h));
    }
    pub fn signed_packet(&mut self, msgid: &[u8], slink: &mut Sp, p: &[u8], m: &[u8], sk: &Mss) {
        self.join(msgid, slink);
        self.absorb_trytes(p);
        self.mask_trytes(m);
        self.mssig(sk);
    }
    pub fn tagged_packet(&mut self, msgid: &[u8], slink: &mut Sp, p: &[u8], m: &[u8]) {
        self.join(msgid, slink);
        self.absorb_trytes(p);
        self.mask_trytes(m);
        self.mac();
    }
    pub fn keyload(
        &mut self,
        msgid: &[u8],
        slink: &mut Sp,
        nonce: &[u8],
        psks: &[(T, T)],
        pks: &[(T, T)],
        prng: &[u8],
        key: &[u8],
    ) {
        self.join(msgid, slink);
        self.absorb(nonce);
        self.absorb(&size_enc(psks.len() as i128));
        for (id, psk) in psks {
            let mut f = self.s.clone();
            let mut w = Wr::new(&mut f);
            w.absorb(id);
            w.s.absorb(psk);
            w.s.commit();
            w.mask(key);
            let b = w.b;
            self.b.extend(b);
        }
        self.absorb(&size_enc(pks.len() as i128));
        for (id, pk) in pks {
            let mut f = self.s.clone();
            let mut w = Wr::new(&mut f);
            w.absorb(id);
            w.ntrukem(prng, pk, nonce, key);
            let b = w.b;
            self.b.extend(b);
        }
        self.s.absorb(key);
        self.s.commit();
    }
    pub fn subscribe(&mut self, msgid: &[u8], slink: &mut Sp, key: &[u8], nonce: &[u8], sub_pk: &[u8], ch_pk: &[u8]) {
        self.join(msgid, slink);
        let u = prng(key, &[nonce], 243);
        self.ntrukem(key, ch_pk, nonce, &u);
        self.s.commit();
        self.mask(sub_pk);
        self.mac();
    }
    pub fn unsubscribe(&mut self, msgid: &[u8], slink: &mut Sp) {
        self.join(msgid, slink);
        self.mac();
    }
}

/// A reader of the documented formats, used to show that a conforming implementation reads what the crate writes.
pub struct Rd<'s, 'a> {
    pub s: &'s mut Sp,
    pub b: &'a [u8],
}
impl<'s, 'a> Rd<'s, 'a> {
    pub fn new(s: &'s mut Sp, b: &'a [u8]) -> Self {
        Rd { s, b }
    }
    pub fn raw(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.b.len() {
            return None;
        }
        let (x, r) = self.b.split_at(n);
        self.b = r;
        Some(x)
    }
    pub fn absorb(&mut self, n: usize) -> Option<T> {
        let x = self.raw(n)?;
        self.s.absorb(x);
        Some(x.to_vec())
    }
    pub fn unmask(&mut self, n: usize) -> Option<T> {
        let x = self.raw(n)?;
        Some(self.s.decr(x))
    }
    fn size(&mut self, mask: bool) -> Option<i128> {
        let get_n = |r: &mut Self, n| if mask { r.unmask(n) } else { r.absorb(n) };
        let mut e = get_n(self, 3)?;
        let d = get(&e);
        if !(0..=13).contains(&d) {
            return None;
        }
        e.extend(get_n(self, 3 * d as usize)?);
        size_dec(&e).map(|x| x.0)
    }
    pub fn absorb_size(&mut self) -> Option<i128> {
        self.size(false)
    }
    pub fn absorb_trytes(&mut self) -> Option<T> {
        let n = self.size(false)?;
        if 3 * n > self.b.len() as i128 {
            return None;
        }
        self.absorb(3 * n as usize)
    }
    pub fn unmask_trytes(&mut self) -> Option<T> {
        let n = self.size(true)?;
        if 3 * n > self.b.len() as i128 {
            return None;
        }
        self.unmask(3 * n as usize)
    }
    pub fn mac(&mut self) -> Option<()> {
        self.s.commit();
        let t = self.s.squeeze(243);
        (self.raw(243)? == t).then_some(())
    }
    pub fn join(&mut self, slink: &mut Sp) -> Option<T> {
        let x = self.raw(81)?;
        self.s.join(slink);
        Some(x.to_vec())
    }
    pub fn hash(&mut self) -> T {
        self.s.commit();
        self.s.squeeze(234)
    }
    pub fn sig(&mut self, h: &[u8]) -> Option<T> {
        let (k, n) = mss_recover(h, self.b)?;
        self.raw(n)?;
        Some(k)
    }
    pub fn ntrukem(&mut self, sk: &Ntru) -> Option<T> {
        let y = self.raw(9216)?;
        ntru_decr(self.s, sk, y)
    }
}
