//! C11, C12 one-time signatures; C15, C16 many-time signatures.

use crate::ensure;
use crate::refm::{self, T};
use crate::rt::{guarded, Cov, Ctx};
use crate::util::*;
use iota_mam::mss::mt::{APath, GenLeaf, MergeNodes, TraversableMerkleTree};
use iota_mam::mss::{self, PrivateKeyMTComplete, PrivateKeyMTTraversal, PrivateKeyT};
use iota_mam::pb3::Absorb;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::wots;
use std::cell::Cell;

/// A one-time key and, from the reference, every element of its 81 hash chains.
struct Wk {
    sk: wots::PrivateKey,
    pk: wots::PublicKey,
    sk_t: T,
    pk_t: T,
    ch: Vec<Vec<T>>,
}
fn gen_impl(k: u64) -> (wots::PrivateKey, T, T) {
    let (key, n) = (pat(7000 + k, 243), pat(8000 + k, (k as usize * 17) % 60));
    let p = PRNG::init(sl(&key));
    (wots::PrivateKey::gen(&p, &[sl(&n)]), key, n)
}
fn wk(k: u64) -> Wk {
    let (sk, key, n) = gen_impl(k);
    let sk_t = refm::wots_sk(&key, &[&n]);
    let ch: Vec<Vec<T>> = sk_t
        .chunks(162)
        .map(|p| {
            let mut v = vec![p.to_vec()];
            for _ in 0..26 {
                let x = refm::chain(v.last().unwrap(), 1);
                v.push(x);
            }
            v
        })
        .collect();
    let pk_t = refm::hash(&ch.iter().map(|v| &v[26][..]).collect::<Vec<_>>(), 243);
    let pk = wots::PublicKey::gen(&sk);
    Wk { sk, pk, sk_t, pk_t, ch }
}
impl Wk {
    fn want(&self, h: &[u8]) -> T {
        refm::wots_digits(h).iter().enumerate().flat_map(|(i, d)| self.ch[i][(13 + d) as usize].clone()).collect()
    }
    fn sign(&self, h: &[u8]) -> T {
        let mut sig = vec![9u8; wots::SIG_SIZE];
        self.sk.sign(sl(h), slm(&mut sig));
        sig
    }
}
fn recover(h: &[u8], sig: &[u8]) -> T {
    let mut pk = vec![9u8; 243];
    wots::recover(sl(h), sl(sig), slm(&mut pk));
    pk
}
fn from_digits(d: &[i128]) -> T {
    d.iter().flat_map(|&d| refm::put(d, 3)).collect()
}
/// A hash whose 78 digits sum to `s`; `k` chooses among such hashes.
fn with_sum(s: i128, k: u64) -> T {
    let mut d = vec![0i128; 78];
    if k == 1 {
        // spread: start from irregular digits
        for (i, t) in pat(99, 234).chunks(3).enumerate() {
            d[i] = refm::get(t);
        }
    }
    let mut rest = s - d.iter().sum::<i128>();
    for x in d.iter_mut() {
        let a = (rest).clamp(-13 - *x, 13 - *x);
        *x += a;
        rest -= a;
    }
    assert_eq!(0, rest);
    from_digits(&d)
}

fn sign_verify(w: &Wk, h: &[u8], cov: &mut Cov) -> Result<(), String> {
    let sig = w.sign(h);
    same(&format!("signature of {}", s(h)), &sig, &w.want(h))?;
    ensure!(w.pk.verify(sl(h), sl(&sig)), "the signature of {} does not verify", s(h));
    same(&format!("key recovered from the signature of {}", s(h)), &recover(h, &sig), &w.pk_t)?;
    cov.case(true);
    Ok(())
}

pub fn c11(c: &Ctx) {
    let ks: Vec<Wk> = (0..3).map(|k| c.setup("keys", || wk(k))).collect();
    c.par("keys", 3, |k, cov| {
        let w = &ks[k as usize];
        let mut pk = vec![9u8; 243];
        w.sk.calc_pk(slm(&mut pk));
        same("public key", &pk, &w.pk_t)?;
        // the same generator key and nonces: the same keys and signatures
        let (sk2, key, n) = gen_impl(k);
        let w2 = Wk { sk: sk2, pk: wots::PublicKey::gen(&gen_impl(k).0), sk_t: vec![], pk_t: vec![], ch: vec![] };
        let h = pat(1, 234);
        same("signature of a regenerated key", &w2.sign(&h), &w.want(&h))?;
        ensure!(w2.pk.verify(sl(&h), sl(&w.sign(&h))), "regenerated key does not verify");
        // nonces in several pieces, with an integer last as the many-time scheme uses them
        let p = PRNG::init(sl(&key));
        for cut in 0..=n.len() {
            let sk = wots::PrivateKey::gen(&p, &[sl(&n[..cut]), sl(&n[cut..])]);
            let mut pk = vec![9u8; 243];
            sk.calc_pk(slm(&mut pk));
            same("public key with the nonce in two pieces", &pk, &w.pk_t)?;
            cov.case(true);
        }
        // the lowest hash reveals all chain starts: the private key itself but for the checksum
        let sig = w.sign(&from_digits(&[-13; 78]));
        same("first chains", &sig[..78 * 162], &w.sk_t[..78 * 162])
    });
    // every checksum value
    c.par("sums", 2029 * 2, |i, cov| {
        cov.sample(|| format!("sign and verify a hash with digit sum {}", (i / 2) as i128 - 1014));
        sign_verify(&ks[0], &with_sum((i / 2) as i128 - 1014, i % 2), cov)
    });
    // every value of every digit over several backgrounds
    let bg = c.q(3u64, 8);
    c.par("digits", 78 * 27 * bg, |i, cov| {
        let d = mixed(i, &[27, 78, bg]);
        let mut x: Vec<i128> = match d[2] {
            0 => vec![-13; 78],
            1 => vec![13; 78],
            k => pat(40 + k as u64, 234).chunks(3).map(refm::get).collect(),
        };
        x[d[1]] = d[0] as i128 - 13;
        sign_verify(&ks[1 + d[2] % 2], &from_digits(&x), cov)
    });
    // constants and cycles, on several keys
    c.par("fillings", c.q(60, 600), |i, cov| {
        sign_verify(&ks[i as usize % 3], &fill(i / 3, 234), cov)
    });
    // nonces of every length, in any number of pieces: the private key as the signature of the lowest hash reveals it
    c.par("nonces", c.q(1000, 3000), |i, cov| {
        let (key, n) = (pat(7500, 243), pat(8500 + i, i as usize));
        let want = refm::wots_sk(&key, &[&n]);
        let low = from_digits(&[-13; 78]);
        let p = PRNG::init(sl(&key));
        for k in [1usize, 2, 3, 9, 30] {
            let parts: Vec<_> = (0..k).map(|j| sl(&n[n.len() * j / k..n.len() * (j + 1) / k])).collect();
            let sk = wots::PrivateKey::gen(&p, &parts);
            let mut sig = vec![9u8; wots::SIG_SIZE];
            sk.sign(sl(&low), slm(&mut sig));
            same(&format!("private key from {} nonces of {} trits in all", k, n.len()), &sig[..78 * 162], &want[..78 * 162])?;
            cov.case(true);
        }
        Ok(())
    });
    // keys made in a row from lists of nonces
    let pieces = [pat(41, 30), pat(42, 18), pat(43, 18), vec![]];
    let mut lists: Vec<(u64, Vec<usize>)> = vec![];
    for k in 0..2 {
        for n in 0..4usize {
            for i in 0..(if n == 3 { 64 } else { 1 << 2 * n }) {
                let l: Vec<usize> = (0..n).map(|j| i >> 2 * j & 3).collect();
                if n < 3 || !l.contains(&3) || c.thorough {
                    lists.push((k, l));
                }
            }
        }
    }
    let wants: Vec<T> = lists.iter().map(|(k, l)| refm::wots_sk(&pat(45 + k, 243), &l.iter().map(|&j| &pieces[j][..]).collect::<Vec<_>>())).collect();
    c.par("nonces-by-turns", lists.len() as u64, |i, cov| {
        let gen = |x: &(u64, Vec<usize>)| wots::PrivateKey::gen(&PRNG::init(sl(&pat(45 + x.0, 243))), &x.1.iter().map(|&j| sl(&pieces[j])).collect::<Vec<_>>());
        let low = from_digits(&[-13; 78]);
        for (j, l) in lists.iter().enumerate() {
            for (which, sk) in [(i as usize, gen(&lists[i as usize])), (j, gen(l))] {
                let mut sig = vec![9u8; wots::SIG_SIZE];
                sk.sign(sl(&low), slm(&mut sig));
                same(&format!("private key from {:?} after {:?}", lists[which], if which == j { &lists[i as usize] } else { l }), &sig[..78 * 162], &wants[which][..78 * 162])?;
                cov.case(true);
            }
        }
        Ok(())
    });
    // hash, signature, nonces and keys as parts of longer containers
    c.par("placed", PLACES * c.q(4, PLACES), |i, cov| {
        let (a, b) = (i % PLACES, (i % PLACES * 7 + i / PLACES) % PLACES);
        let w = &ks[i as usize % 3];
        let hash = pat(3 + i % 5, 234);
        let h = Placed::new(&hash, a);
        let mut sig = Placed::new(&vec![1; wots::SIG_SIZE], b);
        w.sk.sign(h.sl(), sig.slm());
        let want = w.want(&hash);
        sig.check("signature", &want)?;
        ensure!(w.pk.verify(h.sl(), sig.sl()), "a signature does not verify as part of a longer container");
        let mut pk = Placed::new(&vec![1; 243], a + b);
        wots::recover(h.sl(), sig.sl(), pk.slm());
        pk.check("recovered key", &w.pk_t)?;
        let mut pk = Placed::new(&vec![1; 243], b);
        w.sk.calc_pk(pk.slm());
        pk.check("calculated key", &w.pk_t)?;
        h.check("hash", &hash)?;
        sig.check("signature", &want)?;
        let n = [pat(41, 30), pat(42, 18)];
        let (n0, n1) = (Placed::new(&n[0], a), Placed::new(&n[1], b));
        let sk = wots::PrivateKey::gen(&PRNG::init(Placed::new(&pat(45, 243), b).sl()), &[n0.sl(), n1.sl()]);
        let low = from_digits(&[-13; 78]);
        let mut sig = vec![9u8; wots::SIG_SIZE];
        sk.sign(sl(&low), slm(&mut sig));
        same("private key", &sig[..78 * 162], &refm::wots_sk(&pat(45, 243), &[&n[0], &n[1]])[..78 * 162])?;
        cov.case(true);
        Ok(())
    });
    // keys by turns sign the same hash
    c.one("by-turns", |cov| {
        for i in 0..9 {
            for j in [i / 3, i % 3, i / 3] {
                sign_verify(&ks[j as usize], &pat(3, 234), cov)?;
            }
        }
        Ok(())
    });
    // many keys
    c.par("many-keys", c.q(40, 400), |i, cov| {
        let (sk, key, n) = gen_impl(100 + i);
        let want = refm::wots_pk(&refm::wots_sk(&key, &[&n]));
        let mut pk = vec![9u8; 243];
        sk.calc_pk(slm(&mut pk));
        same("public key", &pk, &want)?;
        let h = pat(i, 234);
        let mut sig = vec![9u8; wots::SIG_SIZE];
        sk.sign(sl(&h), slm(&mut sig));
        ensure!(wots::PublicKey::gen(&sk).verify(sl(&h), sl(&sig)), "key {} does not verify", i);
        same("recovered key", &recover(&h, &sig), &want)?;
        cov.case(true);
        Ok(())
    });
}

pub fn c12(c: &Ctx) {
    let ks: Vec<Wk> = (0..3).map(|k| c.setup("keys", || wk(10 + k))).collect();
    let h = pat(1234, 234);
    let sig = c.setup("sign", || ks[0].sign(&h));
    let (h0, sig0) = (h.clone(), sig.clone());
    let rej = |w: &Wk, what: String, h: &[u8], sig: &[u8], cov: &mut Cov| -> Result<(), String> {
        cov.case(true);
        // now and then what was just found genuine comes first, by the same thread
        if cov.evals % 64 == 1 {
            ensure!(ks[0].pk.verify(sl(&h0), sl(&sig0)), "the genuine signature is rejected");
        }
        ensure!(!w.pk.verify(sl(h), sl(sig)), "accepted: {}", what);
        ensure!(cov.evals % 8 != 0 || recover(h, sig) != w.pk_t, "recovers the signer's key: {}", what);
        Ok(())
    };
    c.one("control", |_| {
        ensure!(ks[0].pk.verify(sl(&h), sl(&sig)), "the genuine signature is rejected");
        same("recovered key", &recover(&h, &sig), &ks[0].pk_t)
    });
    // every single trit of the hash, for several hashes
    let nh = c.q(3u64, 8);
    c.par("flip-hash", 468 * nh, |i, cov| {
        let d = mixed(i, &[2, 234, nh]);
        let h0 = match d[2] {
            0 => h.clone(),
            1 => from_digits(&[-13; 78]),
            2 => from_digits(&[13; 78]),
            k => pat(k as u64, 234),
        };
        let sig0 = if d[2] == 0 { sig.clone() } else { ks[0].want(&h0) };
        let mut h1 = h0.clone();
        h1[d[1]] = (h1[d[1]] + 1 + d[0] as u8) % 3;
        cov.sample(|| format!("hash trit {} changed", d[1]));
        rej(&ks[0], format!("hash {} with trit {} changed by {}", d[2], d[1], d[0] + 1), &h1, &sig0, cov)
    });
    // every single trit of the signature
    let nv = c.q(1u64, 2);
    c.par("flip-sig", 13122 * nv, |i, cov| {
        let (k, v) = ((i / nv) as usize, ((i % nv + i / nv) % 2) as u8);
        let mut x = sig.clone();
        x[k] = (x[k] + 1 + v) % 3;
        rej(&ks[0], format!("signature with trit {} changed", k), &h, &x, cov)
    });
    // every part replaced by each other element of its chain, and parts exchanged
    c.par("chain-elements", 81 * 27, |i, cov| {
        let (p, k) = ((i / 27) as usize, (i % 27) as usize);
        let d = refm::wots_digits(&h);
        if k == (13 + d[p]) as usize {
            return Ok(());
        }
        let mut x = sig.clone();
        x[162 * p..162 * (p + 1)].copy_from_slice(&ks[0].ch[p][k]);
        rej(&ks[0], format!("signature with chain {} at position {}", p, k), &h, &x, cov)
    });
    c.par("swap-parts", 81 * 80 / 2 / c.q(4, 1), |i, cov| {
        let (mut p, mut q, mut n) = (0usize, 0usize, i * c.q(4, 1));
        for a in 0..81u64 {
            if n < 80 - a {
                p = a as usize;
                q = (a + 1 + n) as usize;
                break;
            }
            n -= 80 - a;
        }
        let mut x = sig.clone();
        for k in 0..162 {
            x.swap(162 * p + k, 162 * q + k);
        }
        rej(&ks[0], format!("signature with parts {} and {} exchanged", p, q), &h, &x, cov)
    });
    // other keys and other keys' signatures
    c.par("other-keys", 60, |i, cov| {
        let (key, n) = (pat(7010, 243), pat(8010, 170 % 60));
        let (mut key, mut n) = (key, n);
        let k = i as usize;
        // keys from a generator or nonce differing in one trit
        if k < 30 {
            key[k * 8] = (key[k * 8] + 1) % 3;
        } else {
            let m = n.len();
            n[(k - 30) % m] = (n[(k - 30) % m] + 1 + (k as u8 - 30) / m as u8) % 3;
        }
        let sk = wots::PrivateKey::gen(&PRNG::init(sl(&key)), &[sl(&n)]);
        let pk = wots::PublicKey::gen(&sk);
        ensure!(!pk.verify(sl(&h), sl(&sig)), "another key ({}) accepts the signature", i);
        let mut y = vec![9u8; wots::SIG_SIZE];
        sk.sign(sl(&h), slm(&mut y));
        rej(&ks[0], format!("signature by another key ({})", i), &h, &y, cov)
    });
    // forgeries by advancing: every other hash reached by raising one digit, or by moving 1 between two
    // digits, with every part that can be advanced advanced to what the new hash needs
    let forge = |h1: &[u8], cov: &mut Cov| -> Result<(), String> {
        let (d0, d1) = (refm::wots_digits(&h), refm::wots_digits(h1));
        ensure!((0..81).any(|i| d1[i] < d0[i]), "harness: the signature can be advanced");
        let x: T = (0..81).flat_map(|i| ks[0].ch[i][(13 + d1[i].max(d0[i])) as usize].clone()).collect();
        rej(&ks[0], format!("advanced from {:?} to {:?}", d0, d1), h1, &x, cov)
    };
    c.par("advance-one", 78 * 26, |i, cov| {
        let (p, k) = ((i / 26) as usize, (i % 26) as i128);
        let mut d = refm::wots_digits(&h);
        d.truncate(78);
        d[p] = if k - 13 >= d[p] { k - 12 } else { k - 13 };
        forge(&from_digits(&d), cov)
    });
    c.par("advance-pair", 78 * 77 / c.q(4, 1), |i, cov| {
        let i = i * c.q(4, 1);
        let (p, mut q) = ((i / 77) as usize, (i % 77) as usize);
        if q >= p {
            q += 1;
        }
        let mut d = refm::wots_digits(&h);
        d.truncate(78);
        if d[p] == 13 || d[q] == -13 {
            return Ok(());
        }
        d[p] += 1;
        d[q] -= 1;
        forge(&from_digits(&d), cov)
    });
    // The checksum digits the code uses, for every sum: read off its signatures and its verifier.
    let mut used: Vec<[i8; 3]> = vec![[0; 3]; 2029];
    {
        let found = std::sync::Mutex::new(&mut used);
        c.par("checksum-digits", 2029, |i, cov| {
            let h = with_sum(i as i128 - 1014, 0);
            let sig = ks[0].sign(&h);
            let mut d = [0i8; 3];
            for k in 0..3 {
                let x = &sig[162 * (78 + k)..162 * (79 + k)];
                let Some(p) = ks[0].ch[78 + k].iter().position(|e| e == x) else {
                    return Err(format!("checksum part {} of a hash with sum {} is not on its chain", k, i as i128 - 1014));
                };
                d[k] = p as i8;
            }
            ensure!(ks[0].pk.verify(sl(&h), sl(&sig)), "the verifier uses another checksum for the sum {}", i as i128 - 1014);
            cov.case(true);
            found.lock().unwrap()[i as usize] = d;
            Ok(())
        });
    }
    // For every pair of sums: where all 78 digits can only have gone up, a checksum digit has gone down.
    // (Equal sums: some hash digit goes down.)
    if c.only.is_none() {
        c.par("dominance", 2029, |a, cov| {
            for b in a + 1..2029 {
                let (x, y) = (used[a as usize], used[b as usize]);
                ensure!((0..3).any(|k| y[k] < x[k]), "a hash with sum {} can be advanced to one with sum {}: checksums {:?} {:?}", a as i64 - 1014, b as i64 - 1014, x, y);
            }
            cov.cases(2028 - a);
            Ok(())
        });
    }
}

// ------------------------------------------------------------------------------ many-time

pub fn pk_trits(pk: &mss::PublicKey) -> T {
    let mut v = vec![9u8; 243];
    let mut m = slm(&mut v);
    pk.wrap_absorb(&mut Spongos::init(), &mut m);
    v
}
pub fn pk_from(t: &[u8]) -> mss::PublicKey {
    mss::PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut sl(t)).unwrap()
}

thread_local! {
    static MOCK_STEP: Cell<usize> = const { Cell::new(1) };
    static MOCK_NODES: Cell<u64> = const { Cell::new(0) };
}
/// A tree of any height with made-up nodes and real leaves, to reach large heights and indices: every `next`
/// moves on by `MOCK_STEP`.
pub struct MockTree {
    h: usize,
    skn: usize,
    root: Trits,
}
fn mock_nodes(h: usize) -> Vec<T> {
    (0..h).map(|i| pat(5000 + MOCK_NODES.with(|m| m.get()) + i as u64, 243)).collect()
}
impl TraversableMerkleTree<Trits> for MockTree {
    fn gen<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(_: &G, _: &M, h: usize) -> Self {
        MockTree { h, skn: 0, root: Trits::zero(243) }
    }
    fn next<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(&mut self, g: &G, m: &M) -> bool {
        self.skn += MOCK_STEP.with(|s| s.get());
        if self.skn >= 1 << self.h {
            return false;
        }
        // the root this leaf and path fold to
        let mut x = g.gen_leaf(self.skn);
        let mut i = self.skn;
        for n in mock_nodes(self.h) {
            let n = tr(&n);
            x = if i % 2 == 0 { m.merge_nodes(&x, &n) } else { m.merge_nodes(&n, &x) };
            i /= 2;
        }
        self.root = x;
        true
    }
    fn root(&self) -> &Trits {
        &self.root
    }
    fn height(&self) -> usize {
        self.h
    }
    fn skn(&self) -> usize {
        self.skn
    }
    fn apath(&self) -> APath<Trits> {
        let mut p = APath::new(self.h);
        for n in mock_nodes(self.h) {
            p.push(tr(&n));
        }
        p
    }
    fn store(&self) -> (usize, usize, Vec<Trits>) {
        unreachable!()
    }
    fn load(_: usize, _: usize, _: Vec<Trits>) -> Option<Self> {
        unreachable!()
    }
}

fn life<MT: TraversableMerkleTree<Trits> + Clone>(
    name: &str,
    h: usize,
    key: &[u8],
    nonce: &[u8],
    m: &mut refm::Mss,
    cov: &mut Cov,
) -> Result<Vec<T>, String> {
    let at = |i: usize, w: &str| format!("{} height {} index {}: {}", name, h, i, w);
    let mut sk = PrivateKeyT::<MT>::gen(&PRNG::init(sl(key)), sl(nonce), h);
    let mut all = vec![];
    let pk0 = pk_trits(sk.public_key());
    same(&at(0, "public key"), &pk0, m.pk())?;
    ensure!(sk.public_key().to_string() == refm::to_str(m.pk()), "{}", at(0, "public key as a string"));
    let n = mss::sig_size(h);
    ensure!(n == refm::sig_size(h) && mss::apath_size(h) == 243 * h, "{}", at(0, "sizes"));
    for i in 0..1usize << h {
        m.skn = i;
        ensure!((sk.height(), sk.skn(), sk.skn_left()) == (h, i, (1 << h) - i), "{}", at(i, &format!("height, index, left = {}, {}, {}", sk.height(), sk.skn(), sk.skn_left())));
        for k in 0..3u64 {
            // first and last the same hash with every index
            let hash = if k == 1 { pat(31 * i as u64, 234) } else { pat(9, 234) };
            let mut sig = vec![9u8; n];
            sk.sign(sl(&hash), slm(&mut sig));
            same(&at(i, "signature"), &sig, &m.sign(&hash))?;
            ensure!(sk.public_key().verify(sl(&hash), sl(&sig)), "{}", at(i, "does not verify"));
            ensure!(mss::verify(sl(&pk0), sl(&hash), sl(&sig)), "{}", at(i, "does not verify under the first public key"));
            let r = mss::PublicKey::recover(sl(&hash), sl(&sig));
            ensure!(r.as_ref().map(|r| (pk_trits(&r.0), r.1)) == Some((pk0.clone(), n)), "{}", at(i, "recover"));
            // signing again with the same index gives the same signature, on a copy as well
            let mut again = vec![9u8; n];
            sk.clone().sign(sl(&hash), slm(&mut again));
            same(&at(i, "second signature"), &again, &sig)?;
            if k == 0 {
                all.push(sig);
            }
            cov.trans += 1;
        }
        cov.state(&(h, i, &pk0));
        // advancing a copy leaves the key where it is
        let mut cp = sk.clone();
        cp.next();
        ensure!(sk.skn() == i && sk.skn_left() == (1 << h) - i, "{}", at(i, "a copy's next moved the key"));
        let more = sk.next();
        cov.trans += 2;
        ensure!(more == (i + 1 < 1 << h), "{}", at(i, &format!("next returned {}", more)));
        ensure!(cp.skn() == sk.skn() && cp.skn_left() == sk.skn_left(), "{}", at(i, "copy differs"));
        same(&at(i, "public key after next"), &pk_trits(sk.public_key()), m.pk())?;
    }
    for k in 0..3 {
        ensure!((sk.height(), sk.skn(), sk.skn_left()) == (h, 1 << h, 0), "{}", at(1 << h, "exhausted: height, index, left"));
        same(&at(1 << h, "public key of the exhausted key"), &pk_trits(sk.public_key()), m.pk())?;
        let mut sig = vec![9u8; n];
        let hash = pat(0, 234);
        ensure!(guarded(|| sk.sign(sl(&hash), slm(&mut sig))).is_err(), "{}", at(1 << h, "an exhausted key signs"));
        let mut cp = sk.clone();
        ensure!(!cp.next() && !sk.next(), "{}", at(1 << h, &format!("next number {} after the end returned true", k)));
        cov.trans += 2;
    }
    cov.traces += 1;
    Ok(all)
}

pub fn c15(c: &Ctx) {
    let maxh = c.q(4u64, 7);
    c.par("life", (maxh + 1) * 2, |i, cov| {
        let h = (maxh - i / 2) as usize;
        let k = i % 2;
        let (key, nonce) = (pat(600 + k, 243), pat(700 + h as u64, [33, 0][k as usize]));
        let mut m = refm::Mss::new(&key, &nonce, h);
        let a = life::<mss::mtcomplete::MT<Trits>>("complete tree", h, &key, &nonce, &mut m, cov)?;
        let b = life::<mss::mttraversal::MT<Trits>>("traversal tree", h, &key, &nonce, &mut m, cov)?;
        ensure!(a == b, "the two trees give different signatures for height {}", h);
        for x in 0..a.len() {
            for y in 0..x {
                ensure!(a[x][18..13140] != a[y][18..13140], "one-time signatures {} and {} are equal", x, y);
            }
        }
        cov.sample(|| format!("height {}: sign twice with every index, next, ..., three more next after the end; both trees", h));
        Ok(())
    });
    // every nonce length; every key is another
    let nl: Vec<u64> = (0..1000).filter(|n| c.thorough || *n < 20 || [81, 243, 324, 486].iter().any(|k| n + 3 > *k && *n < k + 3)).collect();
    c.par("nonces", nl.len() as u64, |i, cov| {
        let n = nl[i as usize];
        let (key, nonce) = (pat(660 + n % 3, 243), pat(661, n as usize));
        let h = (n % 3 == 0) as usize;
        let mut m = refm::Mss::new(&key, &nonce, h);
        let a = life::<mss::mttraversal::MT<Trits>>("traversal tree", h, &key, &nonce, &mut m, cov)?;
        let b = life::<mss::mtcomplete::MT<Trits>>("complete tree", h, &key, &nonce, &mut m, cov)?;
        ensure!(a == b, "the two trees give different signatures for a nonce of {}", n);
        Ok(())
    });
    // two keys by turns sign the same hashes
    c.par("by-turns", 6 * 6, |i, cov| {
        let ids = [(670u64, 671u64, 30usize, 1usize), (672, 671, 30, 1), (670, 673, 30, 1), (670, 671, 31, 1), (670, 671, 30, 2), (670, 671, 0, 1)];
        let two = [ids[i as usize / 6], ids[i as usize % 6]];
        if i / 6 >= i % 6 {
            return Ok(());
        }
        let mut ms: Vec<_> = two.iter().map(|d| refm::Mss::new(&pat(d.0, 243), &pat(d.1, d.2), d.3)).collect();
        let gen = |d: &(u64, u64, usize, usize)| (PRNG::init(sl(&pat(d.0, 243))), pat(d.1, d.2), d.3);
        let mut cs: Vec<_> = two.iter().map(|d| { let g = gen(d); PrivateKeyMTComplete::gen(&g.0, sl(&g.1), g.2) }).collect();
        let mut ts: Vec<_> = two.iter().map(|d| { let g = gen(d); PrivateKeyMTTraversal::gen(&g.0, sl(&g.1), g.2) }).collect();
        for x in 0..4usize {
            for y in [0, 1, 0] {
                if x >> two[y].3 != 0 {
                    continue;
                }
                let hash = pat(5, 234);
                let mut sig = vec![9u8; mss::sig_size(two[y].3)];
                ms[y].skn = x;
                let want = ms[y].sign(&hash);
                cs[y].sign(sl(&hash), slm(&mut sig));
                same(&format!("complete tree, key {:?}, index {}", two[y], x), &sig, &want)?;
                ensure!(cs[y].public_key().verify(sl(&hash), sl(&sig)), "complete tree, key {:?}, index {}: does not verify", two[y], x);
                let mut sig = vec![9u8; mss::sig_size(two[y].3)];
                ts[y].sign(sl(&hash), slm(&mut sig));
                same(&format!("traversal tree, key {:?}, index {}", two[y], x), &sig, &want)?;
                cov.trans += 2;
            }
            for y in 0..2 {
                cs[y].next();
                ts[y].next();
            }
        }
        cov.traces += 1;
        Ok(())
    });
    // nonce, hash, signature and key as parts of longer containers
    let (key, nonce, hash) = (pat(674, 243), pat(675, 25), pat(676, 234));
    let (mpk, wants) = c.setup("placed", || {
        let mut m = refm::Mss::new(&key, &nonce, 1);
        let w: Vec<T> = (0..2)
            .map(|k| {
                m.skn = k;
                m.sign(&hash)
            })
            .collect();
        (m.pk().clone(), w)
    });
    c.par("placed", PLACES * c.q(4, PLACES), |i, cov| {
        let (a, b) = (i % PLACES, (i % PLACES * 7 + i / PLACES) % PLACES);
        let want = wants[(i % 2) as usize].clone();
        let (nn, h) = (Placed::new(&nonce, a), Placed::new(&hash, b));
        let mut sig = Placed::new(&vec![1; want.len()], a);
        if a < 12 {
            let mut sk = PrivateKeyMTComplete::gen(&PRNG::init(sl(&key)), nn.sl(), 1);
            for _ in 0..i % 2 {
                sk.next();
            }
            sk.sign(h.sl(), sig.slm());
            ensure!(sk.public_key().verify(h.sl(), sig.sl()), "a signature does not verify as part of a longer container");
        } else {
            let mut sk = PrivateKeyMTTraversal::gen(&PRNG::init(sl(&key)), nn.sl(), 1);
            for _ in 0..i % 2 {
                sk.next();
            }
            sk.sign(h.sl(), sig.slm());
            ensure!(sk.public_key().verify(h.sl(), sig.sl()), "a signature does not verify as part of a longer container");
        }
        sig.check("signature", &want)?;
        let pk = Placed::new(&mpk, b);
        ensure!(mss::verify(pk.sl(), h.sl(), sig.sl()), "a signature does not verify as part of a longer container");
        let mut out = Placed::new(&vec![1; 243], a + b);
        ensure!(mss::recover(out.slm(), h.sl(), sig.sl()) == Some(want.len()), "no key is recovered from a part of a longer container");
        out.check("recovered key", &mpk)?;
        sig.check("signature", &want)?;
        h.check("hash", &hash)?;
        cov.trans += 1;
        cov.traces += 1;
        Ok(())
    });
    // alternating fresh sign/next interleavings: which indices get used does not matter for the others
    c.par("skipping", 16, |mask, cov| {
        let (key, nonce) = (pat(650, 243), pat(651, 30));
        let mut sk = PrivateKeyMTComplete::gen(&PRNG::init(sl(&key)), sl(&nonce), 2);
        let mut sk2 = PrivateKeyMTTraversal::gen(&PRNG::init(sl(&key)), sl(&nonce), 2);
        let mut m = refm::Mss::new(&key, &nonce, 2);
        for i in 0..4 {
            m.skn = i;
            if mask >> i & 1 == 1 {
                let hash = pat(mask * 4 + i as u64, 234);
                let mut sig = vec![9u8; mss::sig_size(2)];
                sk.sign(sl(&hash), slm(&mut sig));
                same("complete", &sig, &m.sign(&hash))?;
                sk2.sign(sl(&hash), slm(&mut sig));
                same("traversal", &sig, &m.sign(&hash))?;
                cov.trans += 2;
            }
            sk.next();
            sk2.next();
            cov.trans += 2;
            cov.state(&(mask & ((1 << i) - 1), i));
        }
        cov.traces += 1;
        Ok(())
    });
    // numbering of the one-time keys up to the largest height: a tree with made-up inner nodes
    let mut pts = vec![];
    for h in 0..=20usize {
        let mut v = vec![0usize, 1, 2];
        for b in 0..=h {
            v.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
        }
        let mut p = 1;
        while p <= 1 << h {
            v.extend([p / 2, p / 2 + 1, p - 1, p, p + 1]);
            p *= 3;
        }
        v.extend([(1 << h) / 3, (1 << h) * 2 / 3, (1 << h) - 1]);
        v.retain(|&i| i > 0 && i < 1 << h);
        v.sort();
        v.dedup();
        pts.extend(v.into_iter().map(|i| (h, i)));
    }
    // quick: every point of the two tallest and a share of the others
    let mut k = 0;
    pts.retain(|&(h, _)| {
        k += 1;
        c.thorough || h >= 19 || k % 6 == 0
    });
    c.par("large-heights", pts.len() as u64, |k, cov| {
        let (h, i) = pts[k as usize];
        let (key, nonce) = (pat(660, 243), pat(661, 21));
        let mut sk = PrivateKeyT::<MockTree>::gen(&PRNG::init(sl(&key)), sl(&nonce), h);
        MOCK_STEP.with(|s| s.set(i));
        ensure!(sk.next() && sk.skn() == i && sk.height() == h && sk.skn_left() == (1 << h) - i, "height {} index {}", h, i);
        let hash = pat(k, 234);
        let n = mss::sig_size(h);
        let mut sig = vec![9u8; n];
        sk.sign(sl(&hash), slm(&mut sig));
        let wsk = refm::wots_sk(&key, &[&nonce, &refm::put(i as i128, 18)]);
        let want = [&refm::mss_header(h, i)[..], &refm::wots_sign(&wsk, &hash), &mock_nodes(h).concat()].concat();
        same(&format!("signature with height {} index {}", h, i), &sig, &want)?;
        ensure!(sk.public_key().verify(sl(&hash), sl(&sig)), "signature with height {} index {} does not verify", h, i);
        let r = mss::PublicKey::recover(sl(&hash), sl(&sig));
        ensure!(r.map(|r| (pk_trits(&r.0), r.1)) == Some((pk_trits(sk.public_key()), n)), "recover with height {} index {}", h, i);
        cov.state(&(h, i));
        cov.trans += 2;
        cov.traces += 1;
        Ok(())
    });
    if c.thorough {
        // a complete life of larger keys, verified through the code's own verifier
        c.par("long-life", 6, |i, cov| {
            let h = 8 + (i / 2) as usize;
            fn run<MT: TraversableMerkleTree<Trits>>(h: usize, cov: &mut Cov) -> Result<(), String> {
                let (key, nonce) = (pat(670, 243), pat(671, 20));
                let mut sk = PrivateKeyT::<MT>::gen(&PRNG::init(sl(&key)), sl(&nonce), h);
                let pk0 = pk_trits(sk.public_key());
                for i in 0..1usize << h {
                    let hash = pat(i as u64, 234);
                    let mut sig = vec![9u8; mss::sig_size(h)];
                    sk.sign(sl(&hash), slm(&mut sig));
                    same("header", &sig[..18], &refm::mss_header(h, i))?;
                    ensure!(sk.skn() == i && mss::verify(sl(&pk0), sl(&hash), sl(&sig)), "height {} index {} does not verify", h, i);
                    ensure!(sk.next() == (i + 1 < 1 << h), "next at {} of height {}", i, h);
                    cov.trans += 2;
                    cov.state(&(h, i));
                }
                ensure!(sk.skn_left() == 0 && pk_trits(sk.public_key()) == pk0, "end of life of height {}", h);
                cov.traces += 1;
                Ok(())
            }
            if i % 2 == 0 {
                run::<mss::mtcomplete::MT<Trits>>(h, cov)
            } else {
                run::<mss::mttraversal::MT<Trits>>(h, cov)
            }
        });
    }
}

pub fn c16(c: &Ctx) {
    let (key, nonce) = (pat(680, 243), pat(681, 27));
    let h = 2usize;
    // signatures with every index
    let (pk, hash, sigs) = c.setup("keys", || {
        let mut sk = PrivateKeyMTTraversal::gen(&PRNG::init(sl(&key)), sl(&nonce), h);
        let hash = pat(682, 234);
        let mut v = vec![];
        loop {
            let mut sig = vec![9u8; mss::sig_size(h)];
            sk.sign(sl(&hash), slm(&mut sig));
            v.push(sig);
            if !sk.next() {
                break;
            }
        }
        (pk_trits(sk.public_key()), hash, v)
    });
    let n = sigs[0].len();
    let pko = pk_from(&pk);
    let hash0 = hash.clone();
    // Rejection through every door: free function, method, recovery.
    let rej = |what: String, hash: &[u8], sig: &[u8], cov: &mut Cov| -> Result<(), String> {
        cov.case(true);
        cov.sample(|| format!("verify with {}", what));
        // now and then what was just found genuine comes first, by the same thread
        if cov.evals % 64 == 1 {
            let k = (cov.evals / 64 % 4) as usize;
            ensure!(mss::verify(sl(&pk), sl(&hash0), sl(&sigs[k])), "genuine signature {} rejected", k);
            ensure!(mss::PublicKey::recover(sl(&hash0), sl(&sigs[k])).map(|r| r.1) == Some(n), "genuine signature {} does not recover", k);
        }
        ensure!(!mss::verify(sl(&pk), sl(hash), sl(sig)), "accepted: {}", what);
        if cov.evals % 16 == 0 {
            ensure!(!pko.verify(sl(hash), sl(sig)), "accepted by the key: {}", what);
        }
        Ok(())
    };
    c.one("control", |cov| {
        for (i, sig) in sigs.iter().enumerate() {
            ensure!(mss::verify(sl(&pk), sl(&hash), sl(sig)) && pko.verify(sl(&hash), sl(sig)), "genuine signature {} rejected", i);
            cov.case(false);
        }
        Ok(())
    });
    let nv = c.q(1u64, 2);
    let ns = c.q(1u64, 4);
    c.par("flip-sig", n as u64 * nv * ns, |i, cov| {
        let d = mixed(i, &[nv, n as u64, ns]);
        let mut x = sigs[(1 + d[2]) % 4].clone();
        x[d[1]] = (x[d[1]] + 1 + ((d[0] + d[1]) % 2) as u8) % 3;
        rej(format!("signature {} with trit {} changed", (1 + d[2]) % 4, d[1]), &hash, &x, cov)
    });
    // header and path trits with both changes, for every index
    let tail: Vec<usize> = (0..18).chain(13140..n).collect();
    c.par("flip-path", tail.len() as u64 * 2 * 4, |i, cov| {
        let d = mixed(i, &[2, 4, tail.len() as u64]);
        let mut x = sigs[d[1]].clone();
        let k = tail[d[2]];
        x[k] = (x[k] + 1 + d[0] as u8) % 3;
        rej(format!("signature {} with trit {} changed by {}", d[1], k, d[0] + 1), &hash, &x, cov)
    });
    c.par("flip-hash", 468, |i, cov| {
        let mut x = hash.clone();
        x[i as usize / 2] = (x[i as usize / 2] + 1 + i as u8 % 2) % 3;
        rej(format!("hash with trit {} changed", i / 2), &x, &sigs[2], cov)
    });
    c.par("flip-pk", 486, |i, cov| {
        let mut x = pk.clone();
        x[i as usize / 2] = (x[i as usize / 2] + 1 + i as u8 % 2) % 3;
        cov.case(true);
        ensure!(!mss::verify(sl(&x), sl(&hash), sl(&sigs[1])), "accepted under a public key with trit {} changed", i / 2);
        ensure!(!pk_from(&x).verify(sl(&hash), sl(&sigs[1])), "accepted by a public key with trit {} changed", i / 2);
        Ok(())
    });
    // every truncation, with and without other data in place of the cut part
    c.par("truncated", n as u64, |k, cov| {
        let k = k as usize;
        for sig in &sigs {
            rej(format!("signature cut to {} trits", k), &hash, &sig[..k], cov)?;
            ensure!(mss::PublicKey::recover(sl(&hash), sl(&sig[..k])).is_none(), "a key is recovered from {} trits", k);
            let mut out = vec![1u8; 243];
            ensure!(mss::recover(slm(&mut out), sl(&hash), sl(&sig[..k])).is_none(), "recover succeeds on {} trits", k);
        }
        Ok(())
    });
    // a view into a longer buffer does not make a truncated signature whole
    c.par("truncated-view", 40, |k, cov| {
        let cut = [1, 2, 80, 81, 161, 162, 163, 242, 243, 244, 485, 486, 487, n - 18, n - 17, n - 1, n, 13122, 13121, 13123][k as usize / 2].min(n);
        let mut big = sigs[1].clone();
        big.extend(pat(3, 500));
        let front = if k % 2 == 0 { 0 } else { 5 };
        let mut b = vec![0; front];
        b.extend(&big);
        let v = sl(&b).take(front + n - cut).drop(front);
        cov.case(true);
        ensure!(!mss::verify(sl(&pk), sl(&hash), v), "accepted: cut to {} in a longer buffer", n - cut);
        ensure!(mss::PublicKey::recover(sl(&hash), v).is_none(), "recovered: cut to {} in a longer buffer", n - cut);
        let v = sl(&b).take(front + n).drop(front);
        ensure!(mss::verify(sl(&pk), sl(&hash), v), "rejected: genuine signature in a longer buffer");
        Ok(())
    });
    // trailing trits
    c.par("trailing", c.q(400, 2000), |k, cov| {
        let k = k as usize + 1;
        let mut x = sigs[k % 4].clone();
        x.extend(fill(k as u64 % 5, k));
        rej(format!("{} trailing trits", k), &hash, &x, cov)?;
        for f in 0..3 {
            let mut x = sigs[(k + 1) % 4].clone();
            x.extend(vec![f; k]);
            rej(format!("{} trailing trits of {}", k, f), &hash, &x, cov)?;
        }
        let r = mss::PublicKey::recover(sl(&hash), sl(&x)).map(|r| (pk_trits(&r.0), r.1));
        ensure!(r == Some((pk.clone(), n)), "recovery with {} trailing trits gives {:?}", k, r.map(|r| r.1));
        let mut out = vec![1u8; 243];
        ensure!(mss::recover(slm(&mut out), sl(&hash), sl(&x)) == Some(n) && out == pk, "recover with {} trailing trits", k);
        Ok(())
    });
    // every content of few trailing trits
    c.par("trailing-contents", 1092, |i, cov| {
        let (mut k, mut j) = (1, i as usize);
        while j >= 3usize.pow(k) {
            j -= 3usize.pow(k);
            k += 1;
        }
        let t: T = (0..k).map(|q| (j / 3usize.pow(q) % 3) as u8).collect();
        let mut x = sigs[i as usize % 4].clone();
        x.extend(&t);
        rej(format!("trailing trits {:?}", t), &hash, &x, cov)
    });
    // every height in the header with chosen indices, buffers of exactly the size it asks for, shorter and longer
    let idx: Vec<i128> = vec![0, 1, 2, 3, 4, -1, -2, 7, 8, 9, 15, 16, 255, 256, 1 << 14, (1 << 20) - 1, 1 << 20, 1 << 21, 2391484, 2391483, -2391484];
    let wrap14 = |v: i128| refm::put(v, 14);
    c.par("headers", 81 * idx.len() as u64, |i, cov| {
        let hh = (i / idx.len() as u64) as i128 - 40;
        let ii = idx[i as usize % idx.len()];
        let mut x = [refm::put(hh, 4), wrap14(ii)].concat();
        x.extend(&sigs[1][18..13140]);
        if hh > 0 {
            x.extend(pat(9, 243 * hh as usize));
        }
        let genuine = hh == 2 && ii == 1;
        let valid = hh >= 0 && ii >= 0 && ii < 1 << hh;
        for (delta, name) in [(0i64, "exact"), (-1, "short"), (-243, "one node short"), (1, "longer")] {
            let mut y = x.clone();
            y.resize((x.len() as i64 + delta) as usize, 0);
            let r = mss::PublicKey::recover(sl(&hash), sl(&y)).map(|r| (pk_trits(&r.0), r.1));
            let want = if valid && delta >= 0 { refm::mss_recover(&hash, &y) } else { None };
            ensure!(want.is_some() == (valid && delta >= 0), "harness");
            ensure!(r == want, "recovery with height {} index {} ({}) gives {:?}", hh, ii, name, r.map(|r| r.1));
            if !genuine || delta != 0 {
                ensure!(!mss::verify(sl(&pk), sl(&hash), sl(&y)), "accepted with height {} index {} ({})", hh, ii, name);
            }
            cov.case(true);
        }
        Ok(())
    });
    // every index of the header of a genuine signature
    c.par("all-indices", 200, |i, cov| {
        for ii in (i as i128 - 100) * c.q(1, 100)..(i as i128 - 99) * c.q(1, 100) {
            for (k, sig) in sigs.iter().enumerate() {
                if ii == k as i128 {
                    continue;
                }
                let mut x = sig.clone();
                x[4..18].copy_from_slice(&wrap14(ii));
                rej(format!("signature {} with index {}", k, ii), &hash, &x, cov)?;
                if !(0..4).contains(&ii) {
                    ensure!(mss::PublicKey::recover(sl(&hash), sl(&x)).is_none(), "a key is recovered for index {} of 4", ii);
                }
            }
        }
        Ok(())
    });
    // parts of one signature with parts of another; other trees
    c.par("mixed-parts", 4 * 4 * 4 * 4, |i, cov| {
        let d = mixed(i, &[4, 4, 4, 4]);
        let x = [&sigs[d[0]][..18], &sigs[d[1]][18..13140], &sigs[d[2]][13140..13383], &sigs[d[3]][13383..]].concat();
        if sigs.contains(&x) {
            return Ok(());
        }
        rej(format!("header {} one-time signature {} path {} {}", d[0], d[1], d[2], d[3]), &hash, &x, cov)
    });
    c.par("path-order", 1, |_, cov| {
        for sig in &sigs {
            let x = [&sig[..13140], &sig[13383..], &sig[13140..13383]].concat();
            rej("path nodes exchanged".into(), &hash, &x, cov)?;
        }
        Ok(())
    });
    c.par("other-keys", 24, |i, cov| {
        let (mut k2, mut n2) = (key.clone(), nonce.clone());
        let mut h2 = h;
        match i {
            0..=9 => k2[i as usize * 26] = (k2[i as usize * 26] + 1) % 3,
            10..=19 => n2[(i - 10) as usize * 2] = (n2[(i - 10) as usize * 2] + 1) % 3,
            k => h2 = [0, 1, 3, 4][(k - 20) as usize],
        }
        let mut sk = PrivateKeyMTComplete::gen(&PRNG::init(sl(&k2)), sl(&n2), h2);
        let mut j = 0;
        loop {
            let mut sig = vec![9u8; mss::sig_size(h2)];
            sk.sign(sl(&hash), slm(&mut sig));
            if h2 == h {
                ensure!(!sk.public_key().verify(sl(&hash), sl(&sigs[j])), "another key ({}) accepts signature {}", i, j);
            }
            rej(format!("signature {} by another key ({})", j, i), &hash, &sig, cov)?;
            j += 1;
            if !sk.next() {
                break;
            }
        }
        Ok(())
    });
    // short and arbitrary buffers
    c.par("short", 40 * 8, |i, cov| {
        let x = fill(i % 8, i as usize / 8);
        rej(format!("{} trits of filling {}", x.len(), i % 8), &hash, &x, cov)?;
        ensure!(mss::PublicKey::recover(sl(&hash), sl(&x)).is_none(), "a key is recovered from {} trits", x.len());
        Ok(())
    });
    c.par("arbitrary", c.q(200, 2000), |i, cov| {
        let x = fill(i, 13140 + 243 * (i as usize % 8));
        let want = refm::mss_recover(&hash, &x);
        let r = mss::PublicKey::recover(sl(&hash), sl(&x)).map(|r| (pk_trits(&r.0), r.1));
        ensure!(r == want, "recovery from arbitrary trits ({}) gives {:?}", i, r.map(|r| r.1));
        rej(format!("arbitrary trits ({})", i), &hash, &x, cov)
    });
}
