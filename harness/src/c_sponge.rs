//! C01 Troika sponge, C02 Spongos, C03 decryption inverts encryption, C10 PRNG.

use crate::ensure;
use crate::kat::KAT;
use crate::refm::{self, Hash, Sp, T};
use crate::rt::{Cov, Ctx};
use crate::util::*;
use iota_mam::prng::{self, PRNG};
use iota_mam::spongos::{self, Spongos};
use iota_mam::troika::{Troika, TroikaSponge};

fn num(x: &str) -> T {
    x.bytes().map(|b| b - b'0').collect()
}

fn impl_hash(cuts_in: &[&[u8]], out: &[usize]) -> Vec<T> {
    let mut h = TroikaSponge::default();
    for c in cuts_in {
        h.absorb(c);
    }
    h.finalize();
    out.iter()
        .map(|&n| {
            let mut y = vec![7u8; n];
            h.squeeze(&mut y);
            y
        })
        .collect()
}

pub fn c01(c: &Ctx) {
    // The reference itself against the published answers.
    c.one("reference", |_| {
        let mut m = vec![0u8; 243];
        m[0] = 1;
        m[242] = 2;
        let msgs: [T; 4] = [vec![0; 243], vec![0; 1], vec![0; 2], m];
        for (m, k) in msgs.iter().zip(KAT) {
            same("reference", &refm::troika_hash(m, 243), &num(k))?;
        }
        Ok(())
    });
    let maxlen = c.q(760u64, 2300);
    c.par("length", (maxlen + 1) * 6, |i, cov| {
        let (l, k) = ((i / 6) as usize, i % 6);
        let m = fill(k, l);
        let want = refm::troika_hash(&m, 243);
        cov.traces += 1;
        cov.trans += 3;
        cov.state(&want);
        cov.sample(|| format!("absorb({} trits of filling {}), finalize, squeeze(243)", l, k));
        same(&format!("hash of {} trits of filling {}", l, k), &impl_hash(&[&m], &[243])[0], &want)
    });
    // Very many blocks, in and out, in one call or several.
    let long = long_lengths(c);
    c.par("long", long.len() as u64 * 2, |i, cov| {
        let l = long[i as usize / 2];
        let m = pat(31, l);
        let k = l / 3;
        let cuts: [&[usize]; 3] = [&[l], &[1, l - 1], &[k, 243, l - k - 243]];
        let short = pat(32, 5);
        let want = if i % 2 == 0 { refm::troika_hash(&m, 250) } else { refm::troika_hash(&short, l) };
        for cut in cuts {
            let got = if i % 2 == 0 {
                let mut at = 0;
                let pieces: Vec<&[u8]> = cut.iter().map(|&n| { at += n; &m[at - n..at] }).collect();
                impl_hash(&pieces, &[250]).concat()
            } else {
                impl_hash(&[&short], cut).concat()
            };
            same(&format!("{} trits {} in pieces {:?}", l, ["in", "out"][i as usize % 2], cut), &got, &want)?;
            cov.trans += 1 + cut.len() as u64;
            cov.traces += 1;
        }
        cov.state(&(l, i % 2));
        Ok(())
    });
    // One nonzero trit, at every position of blocks one and two.
    let lens = [1usize, 2, 242, 243, 244, 245, 485, 486, 487];
    c.par("single-trit", lens.len() as u64 * 487 * 2, |i, cov| {
        let d = mixed(i, &[2, 487, lens.len() as u64]);
        let l = lens[d[2]];
        if d[1] >= l {
            return Ok(());
        }
        let mut m = vec![0u8; l];
        m[d[1]] = 1 + d[0] as u8;
        let want = refm::troika_hash(&m, 243);
        cov.state(&want);
        cov.traces += 1;
        cov.trans += 3;
        same(&format!("hash of {} zeros with {} at {}", l, m[d[1]], d[1]), &impl_hash(&[&m], &[243])[0], &want)
    });
    // Every pair of nonzero trits in one block.
    c.par("pair-of-trits", 243 * 242 / 2, |i, cov| {
        // i -> (a, b), a < b
        let mut b = (((8.0 * i as f64 + 1.0).sqrt() - 1.0) / 2.0) as u64 + 1;
        while b * (b - 1) / 2 > i {
            b -= 1;
        }
        while (b + 1) * b / 2 <= i {
            b += 1;
        }
        let a = i - b * (b - 1) / 2;
        for v in 0..4u8 {
            let mut m = vec![0u8; 243];
            m[a as usize] = 1 + v % 2;
            m[b as usize] = 1 + v / 2;
            let want = refm::troika_hash(&m, 243);
            cov.state(&want);
            cov.traces += 1;
            cov.trans += 3;
            same(&format!("hash with trits {} and {} set", a, b), &impl_hash(&[&m], &[243])[0], &want)?;
        }
        Ok(())
    });
    // Every way of cutting into two calls, input and output; three calls over the boundary positions.
    let cl = [1usize, 2, 242, 243, 244, 485, 486, 487, 729, 730, 731];
    c.par("cut-input", cl.len() as u64 * 732, |i, cov| {
        let (l, k) = (cl[i as usize / 732], i as usize % 732);
        if k > l {
            return Ok(());
        }
        let m = pat(17, l);
        let want = refm::troika_hash(&m, 250);
        let bd = [0, 1, 2, 241, 242, 243, 244, 485, 486, 487, 729];
        cov.traces += 1;
        cov.trans += 4;
        same(&format!("{} trits cut at {}", l, k), &impl_hash(&[&m[..k], &m[k..]], &[250])[0], &want)?;
        for &j in bd.iter().filter(|&&j| k + j <= l) {
            cov.traces += 1;
            cov.trans += 5;
            same(
                &format!("{} trits cut at {} and {}", l, k, k + j),
                &impl_hash(&[&m[..k], &m[k..k + j], &m[k + j..]], &[250])[0],
                &want,
            )?;
        }
        Ok(())
    });
    c.par("cut-output", cl.len() as u64 * 732, |i, cov| {
        let (l, k) = (cl[i as usize / 732], i as usize % 732);
        if k > l {
            return Ok(());
        }
        let m = pat(18, 100);
        let want = refm::troika_hash(&m, l);
        for j in [0usize, 1, 2, 241, 242, 243, 244, 485, 486, 487, 729].iter().filter(|&&j| k + j <= l) {
            cov.traces += 1;
            cov.trans += 5;
            same(
                &format!("output of {} cut at {} and {}", l, k, k + j),
                &impl_hash(&[&m], &[k, *j, l - k - j]).concat(),
                &want,
            )?;
        }
        Ok(())
    });
    // All call histories: absorbs, then squeezes, with a reset after any call of a first such history.
    let al = [0usize, 1, 2, 121, 242, 243, 244, 486, 487];
    let d = c.q(3u32, 4);
    let na = 9u64.pow(d);
    c.par("history", na, |i, cov| {
        let a: Vec<usize> = mixed(i, &vec![9; d as usize]).iter().map(|&k| al[k]).collect();
        let total: usize = a.iter().sum();
        let m = pat(i, total);
        let mut r = Hash::new();
        r.absorb(&m);
        r.finalize();
        let want = r.squeeze(487 * 2);
        cov.state(&want[..100]);
        for j in 0..81u64 {
            let o = mixed(j, &[9, 9]);
            let (n0, n1) = (al[o[0]], al[o[1]]);
            let mut parts: Vec<&[u8]> = vec![];
            let mut p = 0;
            for &n in &a {
                parts.push(&m[p..p + n]);
                p += n;
            }
            let got = impl_hash(&parts, &[n0, n1]).concat();
            cov.traces += 1;
            cov.trans += a.len() as u64 + 3;
            same(&format!("absorb{:?} finalize squeeze[{}, {}]", a, n0, n1), &got, &want[..n0 + n1])?;
        }
        cov.sample(|| format!("absorb{:?}, finalize, squeeze[a, b] for all a, b in {:?}", a, al));
        Ok(())
    });
    c.par("reset", 9 * 9 * 2 * 9 * 10, |i, cov| {
        // first life: absorb a0, a1, maybe finalize and squeeze q; reset; second life compared.
        let k = mixed(i, &[9, 9, 2, 9, 10]);
        let mut h = TroikaSponge::default();
        let junk = pat(5, 487);
        h.absorb(&junk[..al[k[0]]]);
        h.absorb(&junk[..al[k[1]]]);
        if k[2] == 1 {
            h.finalize();
            let mut y = vec![0u8; al[k[3]]];
            h.squeeze(&mut y);
        } else if k[3] != 0 {
            return Ok(());
        }
        h.reset();
        if k[4] == 9 {
            h.reset();
        }
        let m = pat(6, al[k[4].min(8)]);
        h.absorb(&m);
        h.finalize();
        let mut y = vec![0u8; 300];
        h.squeeze(&mut y);
        cov.traces += 1;
        cov.trans += 8;
        cov.state(&(k[0], k[1], k[2], k[3]));
        same(
            &format!("after absorb {} {} {} reset", al[k[0]], al[k[1]], if k[2] == 1 { "finalize squeeze" } else { "" }),
            &y,
            &refm::troika_hash(&m, 300),
        )
    });
    // One sponge for very many messages.
    c.par("reuse", 8, |i, cov| {
        let mut h = TroikaSponge::default();
        for k in 0..c.q(700u64, 70000) {
            let n = ((k * (2 * i + 1)) % 500) as usize;
            let m = pat(k, n);
            h.absorb(&m);
            h.finalize();
            let mut y = vec![9u8; 81];
            h.squeeze(&mut y);
            same(&format!("message {} of one sponge, of {} trits", k, n), &y, &refm::troika_hash(&m, 81))?;
            h.reset();
            cov.state(&y);
            cov.trans += 4;
        }
        cov.traces += 1;
        Ok(())
    });
    // The permutation on its own: every single trit, every value of every column triple.
    let perm = |set: &[(usize, u8)]| -> Result<T, String> {
        let mut t = Troika::new();
        let mut r = [0u8; refm::W];
        for &(i, v) in set {
            t.set1(i, v);
            r[i] = v;
        }
        for i in 0..refm::W {
            ensure!(t.get1(i) == r[i], "state trit {} reads {} after writing {:?}", i, t.get1(i), set);
        }
        t.permutation();
        refm::troika(&mut r);
        let y: T = (0..refm::W).map(|i| t.get1(i)).collect();
        same(&format!("permutation of the state with {:?}", set), &y, &r)?;
        Ok(y)
    };
    c.par("permutation", 243 * 27, |i, cov| {
        let (k, v) = (3 * (i / 27) as usize, (i % 27) as u8);
        let y = perm(&[(k, v % 3), (k + 1, v / 3 % 3), (k + 2, v / 9)])?;
        cov.state(&y);
        cov.trans += 1;
        cov.traces += 1;
        Ok(())
    });
    c.par("permutation-iterated", 64, |i, cov| {
        let mut t = Troika::default();
        let mut r = [0u8; refm::W];
        let f = fill(i, refm::W);
        for k in 0..refm::W {
            t.set1(k, 2 - f[k]);
            t.set1(k, f[k]);
            r[k] = f[k];
        }
        for _ in 0..c.q(40, 400) {
            t.permutation();
            refm::troika(&mut r);
            let y: T = (0..refm::W).map(|i| t.get1(i)).collect();
            cov.state(&y);
            cov.trans += 1;
            same("iterated permutation", &y, &r)?;
        }
        cov.traces += 1;
        Ok(())
    });
    if c.thorough {
        c.par("permutation-pairs", 729, |a, cov| {
            for b in a + 1..729 {
                for v in 0..4u8 {
                    let y = perm(&[(a as usize, 1 + v % 2), (b as usize, 1 + v / 2)])?;
                    cov.state(&y);
                    cov.trans += 1;
                    cov.traces += 1;
                }
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------------------ C02

#[derive(Clone, Copy, Debug)]
enum Op {
    Absorb(usize),
    Squeeze(usize),
    SqueezeEq(usize, bool),
    Encr(usize),
    EncrIn(usize),
    Decr(usize),
    DecrIn(usize),
    Commit,
    Fork,
    ForkAt,
    Join(usize),
    JoinedBy(usize),
    Inner,
}
use Op::*;

fn ops(lens: &[usize]) -> Vec<Op> {
    let mut o = vec![];
    for &n in lens {
        o.extend([Absorb(n), Squeeze(n), SqueezeEq(n, true), Encr(n), Decr(n)]);
        if n > 1 {
            o.extend([EncrIn(n), DecrIn(n), SqueezeEq(n, false)]);
        }
    }
    o.extend([Commit, Fork, ForkAt, Inner, Join(0), Join(300), Join(486), JoinedBy(1)]);
    o
}

/// Sponges with histories of their own: nothing, something pending, squeezed from, in the middle of a later block.
fn used(kind: u64, depth: u64) -> Spongos {
    let mut f = Spongos::init();
    let x = |n| pat(1700 + depth, n);
    match kind % 6 {
        0 => (),
        1 => f.absorb(sl(&x(11))),
        2 => f.squeeze(slm(&mut x(300))),
        3 => f.absorb(sl(&x(486 + 485))),
        4 => {
            f.absorb(sl(&x(486)));
            f.commit();
        }
        _ => {
            f.absorb(sl(&x(3)));
            f.commit();
            f.absorb(sl(&x(200)));
        }
    }
    f
}

/// Apply `op` to the implementation and to the model, comparing what it returns.
/// Each operation on views and on containers: one on the sponge itself, the other first on a copy.
fn apply(op: Op, depth: u64, a: &mut Spongos, m: &mut Sp) -> Result<(), String> {
    if matches!(op, Absorb(_) | Squeeze(_) | SqueezeEq(..) | Encr(_) | Decr(_)) {
        let (mut b, mut m2) = (a.clone(), m.clone());
        apply1(op, depth, 1, &mut b, &mut m2)?;
        same("state", &tag(&b), &tag_ref(&m2))?;
    }
    apply1(op, depth, 0, a, m)
}

fn apply1(op: Op, depth: u64, v: usize, a: &mut Spongos, m: &mut Sp) -> Result<(), String> {
    let data = |n: usize| pat(1000 + depth, n);
    match op {
        Absorb(n) => {
            let x = data(n);
            if (n + v) % 2 == 0 {
                a.absorb(sl(&x));
            } else {
                a.absorb_trits(&tr(&x));
            }
            m.absorb(&x);
        }
        Squeeze(n) => {
            let y = if (n + v) % 2 == 0 {
                let mut y = vec![9u8; n];
                a.squeeze(slm(&mut y));
                y
            } else {
                tv(&a.squeeze_trits(n))
            };
            same("squeeze", &y, &m.squeeze(n))?;
        }
        SqueezeEq(n, good) => {
            let mut y = m.squeeze(n);
            if !good {
                let at = [n - 1, 0, n / 2][(n + v) % 3];
                y[at] = (y[at] + 1) % 3;
            }
            let r = if (n + v) % 2 == 0 { a.squeeze_eq(sl(&y)) } else { a.squeeze_eq_trits(&tr(&y)) };
            ensure!(r == good, "squeeze_eq of {} trits returned {}", n, r);
        }
        Encr(n) => {
            let x = data(n);
            let y = if (n + v) % 2 == 0 {
                let mut y = vec![9u8; n];
                a.encr(sl(&x), slm(&mut y));
                y
            } else {
                tv(&a.encr_trits(&tr(&x)))
            };
            same("encr", &y, &m.encr(&x))?;
        }
        EncrIn(n) => {
            let x = data(n);
            let mut t = tr(&x);
            a.encr_mut_trits(&mut t);
            same("encr in place", &tv(&t), &m.encr(&x))?;
        }
        Decr(n) => {
            let x = data(n);
            let y = if (n + v) % 2 == 0 {
                let mut y = vec![9u8; n];
                a.decr(sl(&x), slm(&mut y));
                y
            } else {
                tv(&a.decr_trits(&tr(&x)))
            };
            same("decr", &y, &m.decr(&x))?;
        }
        DecrIn(n) => {
            let x = data(n);
            let mut t = tr(&x);
            a.decr_mut_trits(&mut t);
            same("decr in place", &tv(&t), &m.decr(&x))?;
        }
        Commit => {
            a.commit();
            m.commit();
        }
        Fork => {
            let mut f = a.fork();
            // the original goes on independently of the copy
            a.absorb(sl(&data(7)));
            a.commit();
            std::mem::swap(a, &mut f);
            let mut m2 = m.clone();
            m2.absorb(&data(7));
            m2.commit();
            same("forked original", &probe(&f), &probe_ref(&m2))?;
        }
        ForkAt => {
            // copies over sponges which already hold something else
            for kind in 0..6 {
                let mut f = used(kind, depth);
                a.fork_at(&mut f);
                same(&format!("fork_at over target {}", kind), &probe(&f), &probe_ref(m))?;
            }
            let mut f = used(depth, depth);
            a.fork_at(&mut f);
            let mut m2 = m.clone();
            f.absorb(sl(&data(5)));
            f.commit();
            m2.absorb(&data(5));
            m2.commit();
            same("fork_at copy", &probe(&f), &probe_ref(&m2))?;
            // the history goes on in a copy, independently of the original
            let mut f = used(depth + 1, depth);
            a.fork_at(&mut f);
            a.absorb(sl(&data(7)));
            a.commit();
            m2 = m.clone();
            m2.absorb(&data(7));
            m2.commit();
            same("original after fork_at", &probe(a), &probe_ref(&m2))?;
            *a = f;
        }
        Join(n) => {
            let (mut b, mut mb) = pair(3, n);
            a.join(&mut b);
            m.join(&mut mb);
            same("joinee", &probe(&b), &probe_ref(&mb))?;
        }
        JoinedBy(n) => {
            let (mut b, mut mb) = pair(4, n);
            b.join(a);
            mb.join(m);
            same("joiner", &probe(&b), &probe_ref(&mb))?;
        }
        Inner => {
            // only committed states are exported
            if m.pos != 0 {
                a.commit();
                m.commit();
            }
            let i = a.to_inner_trits();
            same("inner", &tv(&i), &m.inner())?;
            let mut v = vec![9u8; 243];
            a.to_inner(slm(&mut v));
            same("inner", &v, &m.inner())?;
            *m = Sp::from_inner(&v);
            *a = if depth % 2 == 0 { Spongos::from_inner_trits(&i) } else { Spongos::from_inner(sl(&v)) };
        }
    }
    Ok(())
}

fn dfs(
    ops: &[Op],
    left: u32,
    depth: u64,
    a: &Spongos,
    m: &Sp,
    hist: &mut Vec<Op>,
    cov: &mut Cov,
) -> Result<(), String> {
    for &op in ops {
        let (mut a1, mut m1) = (a.clone(), m.clone());
        hist.push(op);
        apply(op, depth, &mut a1, &mut m1).map_err(|e| format!("history {:?}: {}", hist, e))?;
        cov.trans += 1;
        cov.state(&m1);
        same("state", &probe(&a1), &probe_ref(&m1)).map_err(|e| format!("history {:?}: {}", hist, e))?;
        if left > 1 {
            dfs(ops, left - 1, depth + 1, &a1, &m1, hist, cov)?;
        } else {
            cov.traces += 1;
            cov.sample(|| format!("{:?}", hist));
        }
        hist.pop();
    }
    // working on copies left the original as it was
    same("original after its clones were used", &tag(a), &tag_ref(m)).map_err(|e| format!("history {:?}: {}", hist, e))
}

/// Lengths around many whole blocks of either rate, powers of two and of three.
fn long_lengths(c: &Ctx) -> Vec<usize> {
    let mut v = vec![];
    for k in [3usize, 4, 5, 7, 8, 9, 10, 15, 16, 17, 26, 27, 28, 31, 32, 33, 63, 64, 65, 81, 100, 127, 128, 129, 255, 256, 257] {
        for b in [243, 486] {
            if k > 33 && !c.thorough {
                v.extend([k * b, k * b + 1]);
            } else {
                v.extend([k * b - 1, k * b, k * b + 1]);
            }
        }
    }
    let top = c.q(70000usize, 600000);
    for b in [2usize, 3] {
        let mut p = b;
        while p < top {
            if p > 700 {
                v.extend([p - 1, p, p + 1]);
            }
            p *= b;
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c02(c: &Ctx) {
    // Full alphabet to a depth, a smaller one deeper. The first two operations are the case index.
    let runs: Vec<(&str, Vec<usize>, u32)> = vec![
        ("histories", c.q(vec![0, 1, 2, 243, 485, 486, 487, 972, 973], vec![0, 1, 2, 242, 243, 244, 484, 485, 486, 487, 729, 971, 972, 973, 1458]), 3),
        ("deep-histories", c.q(vec![1, 486], vec![1, 485, 486]), 4),
        ("deepest-histories", c.q(vec![486], vec![1, 486]), c.q(4, 5)),
    ];
    for (name, lens, depth) in runs {
        let o = ops(&lens);
        let n = o.len() as u64;
        c.par(name, n * n, |i, cov| {
            let (mut a, mut m) = (Spongos::init(), Sp::new());
            let mut hist = vec![];
            for (k, op) in [o[(i / n) as usize], o[(i % n) as usize]].into_iter().enumerate() {
                hist.push(op);
                apply(op, k as u64, &mut a, &mut m).map_err(|e| format!("history {:?}: {}", hist, e))?;
                same("state", &probe(&a), &probe_ref(&m)).map_err(|e| format!("history {:?}: {}", hist, e))?;
                cov.trans += 1;
                cov.state(&m);
            }
            dfs(&o, depth - 2, 2, &a, &m, &mut hist, cov)
        });
    }
    // Any two operations over and over, past 256 and (thorough) 65536 calls.
    let o = ops(&[1, 243, 486, 487]);
    let n = o.len() as u64;
    c.par("repeated", n * n, |i, cov| {
        let (x, y) = (o[(i / n) as usize], o[(i % n) as usize]);
        let (mut a, mut m) = (Spongos::init(), Sp::new());
        for k in 0..c.q(130u64, 1100) {
            for op in [x, y] {
                apply1(op, k, (k % 2) as usize, &mut a, &mut m).map_err(|e| format!("{:?} {:?} repeated, round {}: {}", x, y, k, e))?;
                cov.trans += 1;
            }
            if k % 40 == 0 || k == c.q(129, 1099) {
                same("state", &probe(&a), &probe_ref(&m)).map_err(|e| format!("{:?} {:?} repeated, round {}: {}", x, y, k, e))?;
                cov.state(&m);
            }
        }
        cov.traces += 1;
        Ok(())
    });
    // Cutting any piece anywhere changes nothing.
    let starts = [0usize, 1, 242, 243, 244, 485];
    let lens = [1usize, 2, 485, 486, 487, 973];
    let kinds = 7u64;
    let piece = |l: usize, p: usize, kind: usize, cuts: &[(usize, usize)], cov: &mut Cov| -> Result<(), String> {
        let (mut a, mut m) = pair(9, p);
        a.commit();
        m.commit();
        a.absorb(sl(&pat(8, p)));
        m.absorb(&pat(8, p));
        let x = pat(21, l);
        let mut y = vec![9u8; l];
        let want = match kind {
            0 => {
                m.absorb(&x);
                vec![9u8; l]
            }
            1 => m.squeeze(l),
            2 | 3 => m.encr(&x),
            4 | 5 => m.decr(&x),
            _ => {
                y = m.squeeze(l);
                y.clone()
            }
        };
        if kind == 3 || kind == 5 {
            y.copy_from_slice(&x);
        }
        for &(k, j) in cuts {
            if k + j > l {
                continue;
            }
            let start = &a;
            let mut a = a.clone();
            let mut y = y.clone();
            let mut eq = true;
            for (f, t) in [(0, k), (k, k + j), (k + j, l)] {
                match kind {
                    0 => a.absorb(sl(&x[f..t])),
                    1 => a.squeeze(slm(&mut y[f..t])),
                    2 => a.encr(sl(&x[f..t]), slm(&mut y[f..t])),
                    4 => a.decr(sl(&x[f..t]), slm(&mut y[f..t])),
                    3 => {
                        let v = slm(&mut y).drop(f).take(t - f);
                        a.encr(v.as_const(), v)
                    }
                    5 => {
                        let v = slm(&mut y).drop(f).take(t - f);
                        a.decr(v.as_const(), v)
                    }
                    _ => eq = a.squeeze_eq(sl(&y[f..t])) && eq,
                }
                cov.trans += 1;
            }
            let w = format!("kind {} of {} trits from position {} cut at {} and {}", kind, l, p, k, k + j);
            ensure!(eq, "{}: squeezed tag refused", w);
            same(&w, &y, &want)?;
            same(&w, &tag(&a), &tag_ref(&m))?;
            cov.traces += 1;
            // a tag altered in one trit: refused where the alteration is, and only there
            if kind == 6 && l > 0 {
                for at in [0, k.min(l - 1), l / 2, l - 1] {
                    let mut a = start.clone();
                    let mut u = y.clone();
                    u[at] = (u[at] + 1) % 3;
                    for (f, t) in [(0, k), (k, k + j), (k + j, l)] {
                        let ok = a.squeeze_eq(sl(&u[f..t]));
                        ensure!(ok == !(f..t).contains(&at), "{}: trits {} to {} of a tag altered at {} {}", w, f, t, at, if ok { "accepted" } else { "refused" });
                    }
                    cov.trans += 3;
                    same(&w, &tag(&a), &tag_ref(&m))?;
                    cov.traces += 1;
                }
            }
        }
        cov.state(&m);
        Ok(())
    };
    c.par("cuts", kinds * 6 * 6 * 974, |i, cov| {
        let d = mixed(i, &[974, 6, 6, kinds]);
        let (k, l, p, kind) = (d[0], lens[d[1]], starts[d[2]], d[3]);
        let js: &[usize] = if c.thorough { &[0, 1, 243, 486] } else { &[0, 1] };
        if k <= l {
            piece(l, p, kind, &js.iter().map(|&j| (k, j)).collect::<Vec<_>>(), cov)?;
        }
        Ok(())
    });
    // Pieces of very many blocks, in one call or two.
    let long = long_lengths(c);
    c.par("long", long.len() as u64 * 3 * kinds, |i, cov| {
        let d = mixed(i, &[kinds, 3, long.len() as u64]);
        let l = long[d[2]];
        piece(l, [0, 1, 485][d[1]], d[0] as usize, &[(0, 0), (l / 2, 7)], cov)
    });
    // Hash functions.
    c.par("hash", c.q(980, 2000), |i, cov| {
        let x = pat(i, i as usize);
        for n in [0usize, 1, 243, 486, 487, 730] {
            let want = refm::hash(&[&x], n);
            let mut y = vec![9u8; n];
            spongos::hash_data(sl(&x), slm(&mut y));
            same(&format!("hash_data of {} trits to {}", i, n), &y, &want)?;
            for k in [0usize, 1, i as usize / 2, i as usize] {
                let k = k.min(i as usize);
                let mut y = vec![9u8; n];
                spongos::hash_datas(&[sl(&x[..k]), sl(&x[k..k]), sl(&x[k..])], slm(&mut y));
                same(&format!("hash_datas of {} trits cut at {} to {}", i, k, n), &y, &want)?;
                cov.trans += 1;
            }
            // output over the input, as used for hash chains
            if n <= i as usize {
                let mut b = x.clone();
                let v = slm(&mut b);
                spongos::hash_data(v.as_const(), v.take(n));
                same(&format!("hash_data of {} trits in place to {}", i, n), &b[..n], &want)?;
            }
        }
        cov.traces += 1;
        cov.state(&x);
        Ok(())
    });
    // Hash of any number of pieces.
    c.par("hash-many", c.q(140, 1000) * 4, |i, cov| {
        let (k, l) = (1 + i as usize / 4, [0usize, 1, 81, 243][i as usize % 4]);
        let x = pat(i, k * l);
        let parts: Vec<_> = (0..k).map(|j| sl(&x[j * l..(j + 1) * l])).collect();
        let mut y = vec![9u8; 300];
        spongos::hash_datas(&parts, slm(&mut y));
        cov.traces += 1;
        cov.trans += k as u64;
        cov.state(&x);
        same(&format!("hash_datas of {} pieces of {}", k, l), &y, &refm::hash(&[&x], 300))
    });
    // Nothing pending: commit is the identity; empty hash list.
    c.par("idle", 3, |i, cov| {
        let (mut a, m) = pair(2, 486 * i as usize);
        let before = probe(&a);
        for _ in 0..5 {
            a.commit();
        }
        cov.trans += 5;
        cov.traces += 1;
        cov.state(&m);
        same("idle commits", &probe(&a), &before)?;
        let mut y = vec![9u8; 300];
        spongos::hash_datas(&[], slm(&mut y));
        same("hash of nothing", &y, &refm::hash(&[], 300))?;
        let mut f = spongos::init();
        f.absorb(sl(&[]));
        same("empty absorb", &probe(&f), &probe_ref(&Sp::new()))
    });
}

// ------------------------------------------------------------------------------ C03

/// Where the output goes relative to the input.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Arr {
    Separate,
    InPlace,
    /// Same memory reached through views with different bases.
    InPlaceRebased,
    /// Other memory, equal offsets.
    SameOffset,
    Behind,
    Before,
    FarBehind,
}
const ARRS: [Arr; 7] =
    [Arr::Separate, Arr::InPlace, Arr::InPlaceRebased, Arr::SameOffset, Arr::Behind, Arr::Before, Arr::FarBehind];

/// Run `f(input view, output view)` under an arrangement, split at `cut`; returns the output; checks everything else.
fn arranged(
    arr: Arr,
    x: &[u8],
    cut: usize,
    mut f: impl FnMut(TritSlice, TritSliceMut),
) -> Result<T, String> {
    let n = x.len();
    let g = 5;
    // layout of one buffer: guard, region A, guard, region B, guard, region C, guard
    let total = 4 * g + 3 * n;
    let orig = pat(77, total);
    let mut buf = orig.clone();
    let mut other = pat(78, total);
    let other0 = other.clone();
    let at = |k: usize| g + k * (n + g);
    let (xi, yi, ybuf) = match arr {
        Arr::Separate => (at(0), at(1), 1),
        Arr::InPlace | Arr::InPlaceRebased => (at(1), at(1), 0),
        Arr::SameOffset => (at(1), at(1), 1),
        Arr::Behind => (at(0), at(0) + n, 0),
        Arr::Before => (at(0) + n, at(0), 0),
        Arr::FarBehind => (at(0), at(2), 0),
    };
    buf[xi..xi + n].copy_from_slice(x);
    let mut exp = buf.clone();
    let mut exp_other = other0.clone();
    {
        let base = buf.as_mut_ptr();
        let all = TritSliceMut::from_raw_ptr(total, base);
        let oall = TritSliceMut::from_raw_ptr(total, other.as_mut_ptr());
        for (a, b) in [(0, cut), (cut, n)] {
            let xs = if arr == Arr::InPlaceRebased {
                TritSliceMut::from_raw_ptr(total - xi, unsafe { base.add(xi) }).drop(a).take(b - a).as_const()
            } else {
                all.drop(xi).take(n).drop(a).take(b - a).as_const()
            };
            let ys = (if ybuf == 1 { oall } else { all }).drop(yi + a).take(b - a);
            f(xs, ys);
        }
    }
    let out = if ybuf == 1 { other[yi..yi + n].to_vec() } else { buf[yi..yi + n].to_vec() };
    if ybuf == 1 {
        exp_other[yi..yi + n].copy_from_slice(&out);
    } else {
        exp[yi..yi + n].copy_from_slice(&out);
    }
    same(&format!("{:?}: trits outside of the output", arr), &buf, &exp)?;
    same(&format!("{:?}: trits outside of the output", arr), &other, &exp_other)?;
    Ok(out)
}
pub fn c03(c: &Ctx) {
    let starts: Vec<usize> = c.q(vec![0, 1, 243, 400, 485], vec![0, 1, 2, 120, 242, 243, 244, 300, 400, 484, 485]);
    let maxl = c.q(1000u64, 1500);
    let ns = starts.len() as u64;
    c.par("roundtrip", (maxl + 1) * ns, |i, cov| {
        let (l, p) = ((i / ns) as usize, starts[(i % ns) as usize]);
        let (s0, m0) = pair(30, p);
        let x = pat(31 + i, l);
        let mut cts: Option<T> = None;
        for (ai, arr) in ARRS.iter().enumerate() {
            for cut in [l, l / 2, l.min(1)] {
                let mut e = s0.clone();
                let y = arranged(*arr, &x, cut, |a, b| e.encr(a, b))?;
                let w = format!("{} trits from position {}, {:?}, cut at {}", l, p, arr, cut);
                match &cts {
                    None => cts = Some(y.clone()),
                    Some(k) => same(&format!("ciphertext {}", w), &y, k)?,
                }
                // the reader uses another arrangement and another cut
                for (arr2, cut2) in [(ARRS[(ai + 3) % 7], l - cut), (*arr, cut)] {
                    let mut d = s0.clone();
                    let z = arranged(arr2, &y, cut2, |a, b| d.decr(a, b))?;
                    same(&format!("plaintext {} read {:?} cut {}", w, arr2, cut2), &z, &x)?;
                    same(&format!("state {} read {:?} cut {}", w, arr2, cut2), &tag(&d), &tag(&e))?;
                    cov.trans += 2;
                    cov.traces += 1;
                }
            }
        }
        let mut m = m0;
        m.encr(&x);
        cov.state(&m);
        cov.sample(|| format!("{} trits from position {} in 7 buffer arrangements x 3 cuts, writer and reader differing", l, p));
        // container forms
        let (mut e, mut d) = (s0.clone(), s0.clone());
        let mut t = e.encr_trits(&tr(&x));
        same("encr_trits", &tv(&t), cts.as_ref().unwrap())?;
        d.decr_mut_trits(&mut t);
        same("decr_mut_trits", &tv(&t), &x)?;
        let (mut e, mut d) = (s0.clone(), s0.clone());
        let mut t = tr(&x);
        e.encr_mut_trits(&mut t);
        same("encr_mut_trits", &tv(&t), cts.as_ref().unwrap())?;
        same("decr_trits", &tv(&d.decr_trits(&t)), &x)?;
        same("state after container forms", &tag(&e), &tag(&d))
    });
    // Texts and tags of very many blocks, every arrangement.
    let long = long_lengths(c);
    c.par("long", long.len() as u64 * 7, |i, cov| {
        let (l, arr) = (long[i as usize / 7], ARRS[i as usize % 7]);
        let p = [0, 1, 485][i as usize % 3];
        let (s0, m0) = pair(35, p);
        let x = pat(36, l);
        let (mut e, mut d, mut m) = (s0.clone(), s0.clone(), m0);
        let y = arranged(arr, &x, l, |a, b| e.encr(a, b))?;
        let w = format!("{} trits from {}, {:?}", l, p, arr);
        same(&w, &y, &m.encr(&x))?;
        let z = arranged(arr, &y, l, |a, b| d.decr(a, b))?;
        same(&w, &z, &x)?;
        e.commit();
        d.commit();
        m.commit();
        let t = m.squeeze(l);
        ensure!(d.clone().squeeze_eq(sl(&t)), "{}: tag of as many trits refused", w);
        for k in [0, l / 2, l - 1] {
            let mut u = t.clone();
            u[k] = (u[k] + 1) % 3;
            ensure!(!d.clone().squeeze_eq(sl(&u)), "{}: tag of as many trits accepted with trit {} altered", w, k);
        }
        let mut u = vec![9u8; l];
        e.squeeze(slm(&mut u));
        same(&w, &u, &t)?;
        same(&w, &tag(&e), &tag_ref(&m))?;
        cov.trans += 7;
        cov.traces += 1;
        cov.state(&(l, p));
        Ok(())
    });
    // Every cut on either side.
    let lens = [1usize, 2, 86, 87, 485, 486, 487, 973];
    c.par("all-cuts", 8 * 974 * 2, |i, cov| {
        let d = mixed(i, &[974, 8, 2]);
        let (k, l) = (d[0], lens[d[1]]);
        if k > l {
            return Ok(());
        }
        let p = [400, 485][d[2]];
        let (s0, _) = pair(33, p);
        let x = pat(34, l);
        let arr = ARRS[k % 7];
        let mut e = s0.clone();
        let y = arranged(arr, &x, k, |a, b| e.encr(a, b))?;
        let mut d = s0.clone();
        let z = arranged(ARRS[(k / 7) % 7], &y, l - k, |a, b| d.decr(a, b))?;
        cov.trans += 4;
        cov.traces += 1;
        cov.state(&(k, l, p));
        let w = format!("{} trits from {} cut at {}", l, p, k);
        same(&w, &z, &x)?;
        same(&w, &tag(&d), &tag(&e))
    });
    // Tags: accepted exactly when every trit agrees, and the comparing sponge follows either way.
    let tl = [1usize, 2, 243, 485, 486, 487, 729, 973];
    let ps = [0usize, 1, 243, 485];
    c.par("tags", 8 * 4 * 974, |i, cov| {
        let d = mixed(i, &[974, 8, 4]);
        let (k, n, p) = (d[0], tl[d[1]], ps[d[2]]);
        if k > n {
            return Ok(());
        }
        let (s0, _) = pair(35, p);
        let mut a = s0.clone();
        let t = tv(&a.squeeze_trits(n));
        for v in 1..3u8 {
            let mut u = t.clone();
            if k < n {
                u[k] = (u[k] + v) % 3;
            }
            let mut b = s0.clone();
            let r = if v == 1 { b.squeeze_eq(sl(&u)) } else { b.squeeze_eq_trits(&tr(&u)) };
            cov.trans += 1;
            cov.traces += 1;
            ensure!(r == (k == n), "tag of {} trits from position {} with trit {} changed by {}: accepted = {}", n, p, k, v, r);
            same(&format!("state after comparing a tag of {} from {} changed at {}", n, p, k), &tag(&b), &tag(&a))?;
        }
        cov.state(&(k, n, p));
        Ok(())
    });
    // Tags that are constant, rotated, reversed, negated, another state's, or right only in a part.
    c.par("tag-shapes", 974, |n, cov| {
        let n = n as usize + 1;
        let (s0, _) = pair(35, 1 + n);
        let (mut o, _) = pair(34, 1 + n);
        let mut a = s0.clone();
        let t = tv(&a.squeeze_trits(n));
        let other = tv(&o.squeeze_trits(n));
        let mut shapes: Vec<T> = (0..3).map(|v| vec![v; n]).collect();
        shapes.extend((1..3).map(|v| t.iter().map(|x| (x + v) % 3).collect::<T>()));
        shapes.push(t.iter().map(|x| (3 - x) % 3).collect());
        shapes.push(t.iter().rev().cloned().collect());
        for k in [1, 3, 9, 243, 486] {
            shapes.push([&t[k % n..], &t[..k % n]].concat());
        }
        for k in [1, 3, 9, 27, 81, 162, 242, 243, 244, 485, 486, 487, 729].iter().filter(|&&k| k < n) {
            shapes.push([&t[..*k], &other[*k..]].concat());
            shapes.push([&other[..*k], &t[*k..]].concat());
            shapes.push([&t[..*k], &vec![0; n - k][..]].concat());
            shapes.push([&t[..n - *k], &vec![0; *k][..]].concat());
            shapes.push([&vec![0; *k][..], &t[*k..]].concat());
        }
        shapes.push(other);
        for u in shapes {
            let mut b = s0.clone();
            ensure!(b.squeeze_eq(sl(&u)) == (u == t), "tag {} for {}", s(&u), s(&t));
            ensure!(tv(&b.squeeze_trits(81)) == tv(&a.clone().squeeze_trits(81)), "state after comparing with {}", s(&u));
            cov.trans += 1;
        }
        cov.state(&n);
        cov.traces += 1;
        Ok(())
    });
    // Pairs of changed trits in short tags must not cancel out.
    c.par("tag-pairs", 243, |i, cov| {
        let (s0, _) = pair(36, 300);
        let mut a = s0.clone();
        let t = tv(&a.squeeze_trits(243));
        for j in 0..i as usize {
            for v in 0..4u8 {
                let mut u = t.clone();
                u[i as usize] = (u[i as usize] + 1 + v % 2) % 3;
                u[j] = (u[j] + 1 + v / 2) % 3;
                let mut b = s0.clone();
                ensure!(!b.squeeze_eq(sl(&u)), "tag accepted with trits {} and {} changed", i, j);
                cov.trans += 1;
            }
        }
        cov.traces += 1;
        cov.state(&i);
        Ok(())
    });
}

// ------------------------------------------------------------------------------ C10

pub fn c10(c: &Ctx) {
    let key = pat(50, 243);
    let nl: Vec<usize> = vec![0, 1, 18, 81, 242, 243, 244, 324, 485, 486, 487, 729, 730];
    let ol: Vec<usize> = vec![0, 1, 162, 243, 485, 486, 487, 972, 973, 2048];
    // values
    c.par("value", 13 * 10 * 4, |i, cov| {
        let d = mixed(i, &[13, 10, 4]);
        let (n, o) = (nl[d[0]], ol[d[1]]);
        let k = fill([0, 2, 3, 50][d[2]], 243);
        let x = pat(51, n);
        let want = refm::prng(&k, &[&x], o);
        let p = PRNG::init(sl(&k));
        let mut y = vec![9u8; o];
        p.gen(sl(&x), slm(&mut y));
        let w = format!("nonce of {} trits, output of {}", n, o);
        same(&w, &y, &want)?;
        for q in [p.clone(), PRNG::init_trits(&tr(&k)), prng::init(sl(&k)), prng::init_trits(&tr(&k))] {
            same(&w, &tv(&q.gen_trits(&tr(&x), o)), &want)?;
            let mut y = vec![9u8; o];
            q.gens(&[sl(&x)], slm(&mut y));
            same(&w, &y, &want)?;
            let mut y = vec![9u8; o];
            q.genss(&[sl(&x)], &[slm(&mut y)]);
            same(&w, &y, &want)?;
        }
        // same again: no state is kept
        let mut y = vec![9u8; o];
        p.gen(sl(&x), slm(&mut y));
        cov.cases(1);
        cov.sample(|| w.clone());
        same(&format!("second call: {}", w), &y, &want)
    });
    // every output length: prefixes of one stream
    c.par("prefix", c.q(1000, 3000), |i, cov| {
        let x = pat(52, 81);
        let p = PRNG::init(sl(&key));
        let want = refm::prng(&key, &[&x], i as usize);
        cov.cases(1);
        same(&format!("output of {}", i), &tv(&p.gen_trits(&tr(&x), i as usize)), &want)
    });
    // every nonce length
    c.par("nonce-length", c.q(1000, 3000), |i, cov| {
        let x = pat(53, i as usize);
        let p = PRNG::init(sl(&key));
        cov.cases(1);
        same(&format!("nonce of {}", i), &tv(&p.gen_trits(&tr(&x), 250)), &refm::prng(&key, &[&x], 250))
    });
    // very many blocks
    let long = long_lengths(c);
    c.par("long", long.len() as u64 * 2, |i, cov| {
        let l = long[i as usize / 2];
        let (n, o) = if i % 2 == 0 { (l, 487) } else { (81, l) };
        let x = pat(56, n);
        let p = PRNG::init(sl(&key));
        let want = refm::prng(&key, &[&x], o);
        cov.cases(2);
        same(&format!("nonce of {}, output of {}", n, o), &tv(&p.gen_trits(&tr(&x), o)), &want)?;
        let mut y = vec![9u8; o];
        {
            let v = slm(&mut y);
            p.genss(&[sl(&x[..n / 2]), sl(&x[n / 2..])], &[v.take(o / 3), v.drop(o / 3)]);
        }
        same(&format!("nonce of {}, output of {}, in two pieces each", n, o), &y, &want)
    });
    // lists of pieces of which any are empty
    let sizes = [0usize, 1, 300];
    c.par("lists", 81 * 81, |i, cov| {
        let (a, b) = (i % 81, i / 81);
        let pick = |x: u64| -> Vec<usize> { (0..4).map(|k| sizes[(x as usize / 3usize.pow(k)) % 3]).collect() };
        let (ns, os) = (pick(a), pick(b));
        let (n, o): (usize, usize) = (ns.iter().sum(), os.iter().sum());
        let x = pat(57, n);
        let p = PRNG::init(sl(&key));
        let want = refm::prng(&key, &[&x], o);
        let mut y = vec![9u8; o];
        {
            let mut q = 0;
            let parts: Vec<_> = ns.iter().map(|&l| { q += l; sl(&x[q - l..q]) }).collect();
            let v = slm(&mut y);
            let mut q = 0;
            let outs: Vec<_> = os.iter().map(|&l| { q += l; v.drop(q - l).take(l) }).collect();
            p.genss(&parts, &outs);
        }
        cov.cases(1);
        same(&format!("nonce in pieces of {:?}, output in pieces of {:?}", ns, os), &y, &want)
    });
    // any number of nonces and outputs
    c.par("many", c.q(140, 1000) * 4, |i, cov| {
        let (k, l) = (1 + i as usize / 4, [0usize, 1, 3, 81][i as usize % 4]);
        let x = pat(59, k * l);
        let p = PRNG::init(sl(&key));
        for (o, m) in [(0, 1), (1, k), (3, k), (l, k), (100, 1)] {
            let want = refm::prng(&key, &[&x], o * m);
            let parts: Vec<_> = (0..k).map(|j| sl(&x[j * l..(j + 1) * l])).collect();
            let mut y = vec![9u8; o * m];
            {
                let v = slm(&mut y);
                let outs: Vec<_> = (0..m).map(|j| v.drop(j * o).take(o)).collect();
                p.genss(&parts, &outs);
            }
            let w = format!("{} nonces of {}, {} outputs of {}", k, l, m, o);
            same(&w, &y, &want)?;
            let mut y = vec![9u8; o * m];
            p.gens(&parts, slm(&mut y));
            same(&w, &y, &want)?;
            cov.cases(2);
        }
        Ok(())
    });
    // every split of the nonce and of the output
    let tot = [1usize, 81, 243, 244, 486, 730];
    c.par("split", 6 * 731, |i, cov| {
        let (n, k) = (tot[i as usize / 731], i as usize % 731);
        if k > n {
            return Ok(());
        }
        let x = pat(54, n);
        let p = PRNG::init(sl(&key));
        let want = refm::prng(&key, &[&x], n);
        for j in [0usize, 1, 243] {
            if k + j > n {
                continue;
            }
            let parts = [sl(&x[..k]), sl(&x[k..k + j]), sl(&x[k + j..])];
            let mut y = vec![9u8; n];
            p.gens(&parts, slm(&mut y));
            same(&format!("nonce of {} cut at {}, {}", n, k, k + j), &y, &want)?;
            let mut y = vec![9u8; n + 6];
            {
                let v = slm(&mut y);
                let outs = [v.drop(2).take(k), v.drop(2 + k).take(j), v.drop(2 + k + j).take(n - k - j)];
                p.genss(&parts, &outs);
            }
            same(&format!("output of {} cut at {}, {}", n, k, k + j), &y[2..n + 2], &want)?;
            ensure!(y[..2] == [9, 9] && y[n + 2..] == [9; 4], "output outside of the pieces");
            cov.cases(2);
        }
        Ok(())
    });
    // every single-trit change of key and nonce changes the output
    let x = pat(55, 243);
    let base = refm::prng(&key, &[&x], 243);
    c.par("change", 486 * 2, |i, cov| {
        let (k, v) = ((i / 2) as usize, 1 + (i % 2) as u8);
        let (mut key, mut x) = (key.clone(), x.clone());
        let t = if k < 243 { &mut key[k] } else { &mut x[k - 243] };
        *t = (*t + v) % 3;
        let y = tv(&PRNG::init(sl(&key)).gen_trits(&tr(&x), 243));
        cov.cases(1);
        ensure!(y != base, "changing trit {} of key and nonce by {} leaves the output as it was", k, v);
        same("changed input", &y, &refm::prng(&key, &[&x], 243))?;
        // by one generator: the changed nonce between two calls with the other, alone and with more after it
        if k >= 243 {
            let p = PRNG::init(sl(&key));
            let x0 = pat(55, 243);
            for (n, o) in [(243, 81), (243, 500), (k - 242, 100), (243, 81)] {
                for z in [&x0, &x, &x0] {
                    let parts = [sl(&z[..n]), sl(&z[243 - n / 2..])];
                    let mut y = vec![9u8; o];
                    p.gens(&parts, slm(&mut y));
                    same("nonces by turns", &y, &refm::prng(&key, &[&z[..n], &z[243 - n / 2..]], o))?;
                    cov.cases(1);
                }
            }
        }
        Ok(())
    });
    // long nonces that differ in one trit, or in length, by turns
    c.par("change-long", 1000, |i, cov| {
        let p = i as usize;
        let g = PRNG::init(sl(&key));
        let x0 = pat(56, 1000);
        let mut x1 = x0.clone();
        x1[p] = (x1[p] + 1) % 3;
        let (x2, x3) = (x0[..p].to_vec(), [&x0[..p], &vec![0; 1000 - p][..]].concat());
        for c in 0..3 {
            for z in [&x0, &x1, &x0, &x2, &x3, &x1, &x2, &x0] {
                let cut = [z.len(), z.len() / 2, 243.min(z.len())][c];
                let parts = [sl(&z[..cut]), sl(&z[cut..])];
                let mut y = vec![9u8; 81];
                let k = if cut == z.len() { 1 } else { 2 };
                g.gens(&parts[..k], slm(&mut y));
                same(&format!("nonces of {} by turns, cut at {}", z.len(), cut), &y, &refm::prng(&key, &[z], 81))?;
                cov.cases(1);
            }
        }
        Ok(())
    });
    // generators whose keys differ in one trit, by turns
    c.par("change-key", 243, |i, cov| {
        let mut k1 = key.clone();
        k1[i as usize] = (k1[i as usize] + 1) % 3;
        let (x, y) = (pat(57, 100), pat(58, 300));
        for k in [&key, &k1, &key, &k1] {
            for n in [&x, &y] {
                same("keys by turns", &tv(&PRNG::init(sl(k)).gen_trits(&tr(n), 81)), &refm::prng(k, &[n], 81))?;
                cov.cases(1);
            }
        }
        Ok(())
    });
    // call histories on one generator and its clones
    c.par("history", 4 * 4 * 4 * 4, |i, cov| {
        let d = mixed(i, &[4, 4, 4, 4]);
        let mut p = PRNG::init(sl(&key));
        for k in d {
            let (n, o) = [(0, 243), (81, 486), (243, 1), (300, 700)][k];
            let x = pat(56 + k as u64, n);
            let q = p.clone();
            same("history", &tv(&p.gen_trits(&tr(&x), o)), &refm::prng(&key, &[&x], o))?;
            same("history (clone)", &tv(&q.gen_trits(&tr(&x), o)), &refm::prng(&key, &[&x], o))?;
            if k % 2 == 0 {
                p = q;
            }
        }
        cov.cases(1);
        Ok(())
    });
    // very many calls of one generator
    c.par("calls", 4, |i, cov| {
        let p = PRNG::init(sl(&key));
        for k in 0..c.q(600u64, 70000) {
            let x = pat(k, (k * (i + 1) % 300) as usize);
            let o = (k * 7 % (100 + 200 * i)) as usize;
            cov.cases(1);
            same(&format!("call {}: nonce of {}, output of {}", k, x.len(), o), &tv(&p.gen_trits(&tr(&x), o)), &refm::prng(&key, &[&x], o))?;
        }
        Ok(())
    });
    // key, nonces and outputs as parts of longer containers
    c.par("placed", PLACES * PLACES, |i, cov| {
        let (a, b) = (i % PLACES, i / PLACES);
        let (n, o) = ([18, 81, 300][a as usize % 3], [243, 162, 500, 0][b as usize % 4]);
        let (k, x, z) = (Placed::new(&key, a), Placed::new(&pat(59, n), b), Placed::new(&pat(60, 18), a + b));
        let p = PRNG::init(k.sl());
        let mut y = Placed::new(&vec![1; o], b);
        p.gen(x.sl(), y.slm());
        y.check("gen", &refm::prng(&key, &[&pat(59, n)], o))?;
        let want = refm::prng(&key, &[&pat(59, n), &pat(60, 18)], o + 30);
        let mut y = Placed::new(&vec![1; o], a);
        p.gens(&[x.sl(), z.sl()], y.slm());
        y.check("gens", &want[..o])?;
        let (mut y, mut y2) = (Placed::new(&vec![1; o], a), Placed::new(&vec![1; 30], b));
        p.genss(&[x.sl(), z.sl()], &[y.slm(), y2.slm()]);
        y.check("genss", &want[..o])?;
        y2.check("genss, second", &want[o..])?;
        for (what, q, w) in [("key", &k, &key), ("nonce", &x, &pat(59, n)), ("second nonce", &z, &pat(60, 18))] {
            q.check(what, w)?;
        }
        cov.cases(3);
        Ok(())
    });
    // documented construction from a string
    c.par("strings", 4, |i, cov| {
        let k = ["A", "KEY", "9", "PRNGKEY"][i as usize];
        let t: T = refm::from_str(k).into_iter().cycle().take(243).collect();
        let x = pat(57, 20);
        cov.cases(1);
        same(k, &tv(&prng::dbg_init_str(k).gen_trits(&tr(&x), 100)), &refm::prng(&t, &[&x], 100))
    });
}
