//! C04 containers and views, C05 codecs, C06 increment.

use crate::ensure;
use crate::refm::{self, get, put, T};
use crate::rt::{h64, Cov, Ctx};
use crate::util::*;
use iota_mam::trits::*;
use std::collections::HashSet;

const BIG: usize = usize::MAX;

/// A buffer with guard trits before and after, and the root view on the middle.
struct Buf {
    v: Vec<u8>,
    n: usize,
}
const G: usize = 3;
impl Buf {
    fn new(n: usize) -> Self {
        Buf { v: vec![0; n + 2 * G], n }
    }
    fn set(&mut self, f: impl Fn(usize) -> u8) {
        for i in 0..self.v.len() {
            self.v[i] = f(i);
        }
    }
    fn ro(&self) -> TritSlice<'static> {
        TritSlice::from_raw_ptr(self.n, unsafe { self.v.as_ptr().add(G) })
    }
    fn rw(&mut self) -> TritSliceMut<'static> {
        TritSliceMut::from_raw_ptr(self.n, unsafe { self.v.as_mut_ptr().add(G) })
    }
}

/// The operations that narrow, advance, split, rewind and combine views.
#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
    Take(usize),
    TakeMin(usize),
    Drop(usize),
    DropMin(usize),
    SplitL(usize),
    SplitR(usize),
    SplitMinL(usize),
    SplitMinR(usize),
    AdvanceRet(usize),
    AdvanceSelf(usize),
    Pickup(usize),
    PickupAll,
    DropAll,
    Dropped,
    Diff(usize, usize),
    Copy,
}
/// The same on a pair (end, offset); `None` where the operation has a precondition that does not hold.
fn model(op: V, (n, d): (usize, usize)) -> Option<(usize, usize)> {
    let size = n - d;
    Some(match op {
        V::Take(k) | V::SplitL(k) | V::AdvanceRet(k) => {
            if k > size {
                return None;
            }
            (d + k, d)
        }
        V::Drop(k) | V::SplitR(k) | V::AdvanceSelf(k) => {
            if k > size {
                return None;
            }
            (n, d + k)
        }
        V::TakeMin(k) | V::SplitMinL(k) => (d + k.min(size), d),
        V::DropMin(k) | V::SplitMinR(k) => (n, d + k.min(size)),
        V::Pickup(k) => {
            if k > d {
                return None;
            }
            (n, d - k)
        }
        V::PickupAll => (n, 0),
        V::DropAll => (n, n),
        V::Dropped => (d, 0),
        V::Diff(sn, sd) => {
            if !(sd <= d && d <= sn) {
                return None;
            }
            (d, sd)
        }
        V::Copy => (n, d),
    })
}
fn view_ops(n: usize) -> Vec<V> {
    let mut o = vec![V::PickupAll, V::DropAll, V::Dropped, V::Copy];
    for k in (0..=n + 1).chain([BIG - n, BIG - 1, BIG]) {
        o.extend([V::TakeMin(k), V::DropMin(k), V::SplitMinL(k), V::SplitMinR(k)]);
        if k <= n {
            o.extend([V::Take(k), V::Drop(k), V::SplitL(k), V::SplitR(k), V::AdvanceRet(k), V::AdvanceSelf(k), V::Pickup(k)]);
        }
    }
    for a in 0..=n {
        for b in 0..=a {
            o.push(V::Diff(a, b));
        }
    }
    o
}
macro_rules! do_op {
    ($op:expr, $v:expr, $root:expr) => {{
        let v = $v;
        match $op {
            V::Take(k) => v.take(k),
            V::TakeMin(k) => v.take_min(k),
            V::Drop(k) => v.drop(k),
            V::DropMin(k) => v.drop_min(k),
            V::SplitL(k) => v.split_at(k).0,
            V::SplitR(k) => v.split_at(k).1,
            V::SplitMinL(k) => v.split_at_min(k).0,
            V::SplitMinR(k) => v.split_at_min(k).1,
            V::AdvanceRet(k) => {
                let mut w = v;
                w.advance(k)
            }
            V::AdvanceSelf(k) => {
                let mut w = v;
                w.advance(k);
                w
            }
            V::Pickup(k) => v.pickup(k),
            V::PickupAll => v.pickup_all(),
            V::DropAll => v.drop_all(),
            V::Dropped => v.dropped(),
            V::Diff(n, d) => v.diff($root.take(n).drop(d)),
            V::Copy => v,
        }
    }};
}

/// Every accessor of a view on `b` agrees with the range (n, d).
fn look_ro(b: &mut Buf, v: TritSlice, (n, d): (usize, usize)) -> Result<(), String> {
    let p = (v.total_size(), v.dropped_size(), v.avail_size(), v.size(), v.is_empty());
    ensure!(p == (n, d, n - d, n - d, n == d), "total, dropped, avail, size, empty = {:?}, expected {:?}", p, (n, d));
    for k in (0..=n - d + 1).chain([BIG]) {
        ensure!(v.size_min(k) == k.min(n - d), "size_min({}) = {} for {:?}", k, v.size_min(k), (n, d));
    }
    for digit in [1, 3, 9] {
        b.set(|i| ((i / digit) % 3) as u8);
        let want: T = (G + d..G + n).map(|i| ((i / digit) % 3) as u8).collect();
        let mut got = vec![7u8; n - d];
        v.get_trits(&mut got);
        ensure!(got == want, "view {:?} reads {} instead of {}", (n, d), s(&got), s(&want));
        let mut g1 = vec![7i8; n - d];
        v.get1s(&mut g1);
        ensure!(g1.iter().map(|t| t.rem_euclid(3) as u8).eq(want.iter().copied()), "get1s of {:?} reads {:?}", (n, d), g1);
        if n > d {
            ensure!(v.get_trit() == want[0] && v.get1().rem_euclid(3) as u8 == want[0], "first trit of {:?}", (n, d));
            let k = (n - d) / 2;
            let mut half = vec![7u8; k];
            v.get_trits(&mut half);
            ensure!(half[..] == want[..k], "first {} trits of {:?}", k, (n, d));
        }
        ensure!(tv(&v.clone_trits()) == want && tv(&Trits::from_slice(v)) == want, "container from view {:?}", (n, d));
    }
    Ok(())
}
fn look_rw(b: &mut Buf, v: TritSliceMut, (n, d): (usize, usize)) -> Result<(), String> {
    let p = (v.total_size(), v.dropped_size(), v.avail_size(), v.size(), v.is_empty());
    ensure!(p == (n, d, n - d, n - d, n == d), "total, dropped, avail, size, empty = {:?}, expected {:?}", p, (n, d));
    for k in (0..=n - d + 1).chain([BIG]) {
        ensure!(v.size_min(k) == k.min(n - d), "size_min({}) = {} for {:?}", k, v.size_min(k), (n, d));
    }
    let m = n - d;
    let mut check = |what: &str, f: &dyn Fn(), e: &dyn Fn(usize) -> u8| -> Result<(), String> {
        b.set(|_| 2);
        f();
        for i in 0..b.v.len() {
            let w = if i >= G + d && i < G + n { e(i - G - d) } else { 2 };
            ensure!(b.v[i] == w, "{} through the view {:?}: trit {} of the buffer is {}, expected {}", what, (n, d), i as isize - G as isize, b.v[i], w);
        }
        Ok(())
    };
    check("set_zero", &|| v.set_zero(), &|_| 0)?;
    for t in 0..3 {
        check("set_trit", &|| v.set_trit(t), &|_| t)?;
    }
    for digit in [1, 3] {
        let data: T = (0..m).map(|i| ((i / digit) % 3) as u8).collect();
        check("put_trits", &|| v.put_trits(&data), &|i| data[i])?;
        let d1: Vec<i8> = data.iter().map(|&t| if t == 2 { -1 } else { t as i8 }).collect();
        check("put1s", &|| v.put1s(&d1), &|i| data[i])?;
        check("put_trits of a half", &|| v.put_trits(&data[..m / 2]), &|i| if i < m / 2 { data[i] } else { 2 })?;
        check("copy", &|| sl(&data).copy(v), &|i| data[i])?;
    }
    if m > 0 {
        check("put_trit", &|| v.put_trit(0), &|i| if i == 0 { 0 } else { 2 })?;
        check("put1", &|| v.put1(1), &|i| if i == 0 { 1 } else { 2 })?;
    }
    for k in 0..=m + 2 {
        let data: T = (0..k).map(|i| (i % 2) as u8).collect();
        let got = std::cell::Cell::new(0);
        check("copy_min", &|| got.set(sl(&data).copy_min(v)), &|i| if i < k { data[i] } else { 2 })?;
        ensure!(got.get() == k.min(m), "copy_min of {} to {} returns {}", k, m, got.get());
        check("cycle", &|| v.cycle(sl(&data)), &|i| if k == 0 { 2 } else { data[i % k] })?;
    }
    Ok(())
}

fn walk(
    ops: &[V],
    left: u32,
    b: &mut Buf,
    ro: TritSlice<'static>,
    rw: TritSliceMut<'static>,
    st: (usize, usize),
    hist: &mut Vec<V>,
    seen: &mut HashSet<(usize, usize)>,
    cov: &mut Cov,
) -> Result<(), String> {
    let bn = b.n;
    let e = |h: &Vec<V>, m: String| format!("views of {} trits after {:?}: {}", bn, h, m);
    for &op in ops {
        let Some(st2) = model(op, st) else { continue };
        hist.push(op);
        let ro2 = do_op!(op, ro, b.ro());
        let root = b.rw();
        let rw2 = do_op!(op, rw, root);
        cov.trans += 2;
        if seen.insert(st2) {
            look_ro(b, ro2, st2).map_err(|m| e(hist, m))?;
            look_ro(b, rw2.as_const(), st2).map_err(|m| e(hist, m))?;
            look_rw(b, rw2, st2).map_err(|m| e(hist, m))?;
        } else {
            // a light look at the others
            let p = (ro2.total_size(), ro2.dropped_size(), ro2.size());
            let q = (rw2.total_size(), rw2.dropped_size(), rw2.size());
            let w = (st2.0, st2.1, st2.0 - st2.1);
            ensure!(p == w && q == w, "{}", e(hist, format!("ranges {:?} and {:?}, expected {:?}", p, q, w)));
            b.set(|i| (i % 3) as u8);
            let mut g = [7u8; 16];
            ro2.get_trits(&mut g[..w.2]);
            ensure!((0..w.2).all(|i| g[i] == ((G + st2.1 + i) % 3) as u8), "{}", e(hist, "contents differ".into()));
            rw2.as_const().get_trits(&mut g[..w.2]);
            ensure!((0..w.2).all(|i| g[i] == ((G + st2.1 + i) % 3) as u8), "{}", e(hist, "contents differ".into()));
        }
        // the operation left its operand alone
        ensure!(
            (ro.total_size(), ro.dropped_size()) == st && (rw.total_size(), rw.dropped_size()) == st,
            "{}",
            e(hist, "the operand changed".into())
        );
        if left > 1 {
            walk(ops, left - 1, b, ro2, rw2, st2, hist, seen, cov)?;
        } else {
            cov.traces += 1;
            cov.sample(|| format!("{:?}", hist));
        }
        hist.pop();
    }
    Ok(())
}

pub fn c04(c: &Ctx) {
    // All reachable views of all small buffers; every accessor and every operation at each of them.
    c.par("views", c.q(9, 13), |n, cov| {
        let n = n as usize;
        let ops = view_ops(n);
        let mut b = Buf::new(n);
        let mut todo = vec![(n, 0)];
        let mut seen: HashSet<(usize, usize)> = todo.iter().copied().collect();
        while let Some(st) = todo.pop() {
            cov.state(&(n, st));
            let (ro, rw) = (b.ro().take(st.0).drop(st.1), b.rw().take(st.0).drop(st.1));
            for &op in &ops {
                let Some(st2) = model(op, st) else { continue };
                let ro2 = do_op!(op, ro, b.ro());
                let root = b.rw();
                let rw2 = do_op!(op, rw, root);
                let e = |m| format!("{:?} on the view {:?} of {} trits: {}", op, st, n, m);
                look_ro(&mut b, ro2, st2).map_err(e)?;
                look_ro(&mut b, rw2.as_const(), st2).map_err(e)?;
                look_rw(&mut b, rw2, st2).map_err(e)?;
                cov.trans += 2;
                if seen.insert(st2) {
                    todo.push(st2);
                }
            }
        }
        ensure!(seen.len() == (n + 1) * (n + 2) / 2, "harness: {} views", seen.len());
        cov.traces += 1;
        Ok(())
    });
    // Every sequence of operations, without merging equal ranges.
    let hn = c.q(3usize, 4);
    let ops = view_ops(hn);
    c.par("histories", ops.len() as u64, |i, cov| {
        let mut b = Buf::new(hn);
        let op = ops[i as usize];
        let Some(st) = model(op, (hn, 0)) else { return Ok(()) };
        let ro = do_op!(op, b.ro(), b.ro());
        let root = b.rw();
        let rw = do_op!(op, root, root);
        walk(&ops, c.q(3, 4), &mut b, ro, rw, st, &mut vec![op], &mut HashSet::new(), cov)
    });
    // chunks of every size, at every range
    c.par("chunks", 41, |n, cov| {
        let n = n as usize;
        let x = pat(n as u64, 45);
        for d in 0..5 {
            let v = sl(&x).take(d + n).drop(d);
            for k in (1..=n + 2).chain([BIG / 2, BIG]) {
                if k.checked_add(n).is_none() {
                    continue; // the rounding up inside is not specified there
                }
                let got: Vec<T> = v.chunks(k).iter().map(tv).collect();
                let want: Vec<T> = x[d..d + n].chunks(k).map(|c| c.to_vec()).collect();
                ensure!(got == want, "chunks({}) of {} trits at {}: {:?}", k, n, d, got);
                cov.trans += 1;
            }
        }
        cov.nstates += 5;
        cov.traces += 1;
        Ok(())
    });
    // Pairwise operations: every content of lengths up to 3, and every pair of ranges
    c.par("pair-contents", 27 * 27, |i, cov| {
        let (a, b) = (put_unsigned(i % 27, 3), put_unsigned(i / 27, 3));
        for n in 0..=3 {
            pairwise(&a[..n], &b[..n], 1, 2, 0)?;
            cov.trans += 12;
        }
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    let lm = c.q(300u64, 800);
    c.par("pair-lengths", (lm + 1) * 9 * 9, |i, cov| {
        let d = mixed(i, &[lm + 1, 9, 9]);
        let n = d[0];
        for k in 0..2 {
            let (a, b) = (pat(i + k, n), if k == 0 { pat(7 * i + 1, n) } else { pat(i, n) });
            pairwise(&a, &b, d[1], d[2], (d[1] + d[2]) % 4)?;
        }
        cov.trans += 24;
        cov.nstates += 2;
        cov.traces += 2;
        Ok(())
    });
    c.par("pair-long", c.q(3000, 20000), |n, _| {
        let a = pat(n, n as usize);
        pairwise(&a, &pat(n + 1, n as usize), n as usize % 5, n as usize % 7, n as usize % 4)
    });
    // Large containers and views far into them
    let far = far();
    c.par("far-views", far.len() as u64, |i, cov| {
        let n = far[i as usize];
        let mut b = Buf::new(n);
        b.set(|i| (i % 3) as u8);
        let at = |i: usize| ((G + i) % 3) as u8;
        for &d in far.iter().filter(|&&d| d <= n) {
            for &m in far.iter().filter(|&&m| d <= m && m <= n).chain([&n]) {
                let (ro, rw) = (b.ro().take(m).drop(d), b.rw().take(m).drop(d));
                let mut ops = vec![V::PickupAll, V::DropAll, V::Dropped, V::Copy, V::Diff(n, 0), V::Diff(m, d / 2), V::TakeMin(BIG), V::DropMin(BIG - d)];
                for &k in &far {
                    ops.extend([V::Take(k), V::TakeMin(k), V::Drop(k), V::DropMin(k), V::SplitL(k), V::SplitR(k)]);
                    ops.extend([V::SplitMinL(k), V::SplitMinR(k), V::AdvanceRet(k), V::AdvanceSelf(k), V::Pickup(k)]);
                }
                for op in ops {
                    let Some(st2) = model(op, (m, d)) else { continue };
                    let ro2 = do_op!(op, ro, b.ro());
                    let root = b.rw();
                    let rw2 = do_op!(op, rw, root);
                    let w = (st2.0, st2.1, st2.0 - st2.1, st2.0 - st2.1, st2.0 == st2.1);
                    let p = (ro2.total_size(), ro2.dropped_size(), ro2.size(), ro2.avail_size(), ro2.is_empty());
                    let q = (rw2.total_size(), rw2.dropped_size(), rw2.size(), rw2.avail_size(), rw2.is_empty());
                    ensure!(p == w && q == w, "{:?} on the view {:?} of {} trits: ranges {:?} and {:?}, expected {:?}", op, (m, d), n, p, q, w);
                    let k = w.2.min(4);
                    let mut g = [7u8; 4];
                    ro2.get_trits(&mut g[..k]);
                    ensure!((0..k).all(|i| g[i] == at(st2.1 + i)), "{:?} on the view {:?} of {} trits: contents", op, (m, d), n);
                    rw2.drop(w.2 - k).as_const().get_trits(&mut g[..k]);
                    ensure!((0..k).all(|i| g[i] == at(st2.0 - k + i)), "{:?} on the view {:?} of {} trits: contents", op, (m, d), n);
                    cov.trans += 2;
                }
                cov.nstates += 1;
            }
        }
        cov.traces += 1;
        Ok(())
    });
    c.par("far-positions", far.len() as u64, |i, cov| {
        let mut b = Buf::new(far[far.len() - 1]);
        let n = far[i as usize];
        for &d in far.iter().filter(|&&d| d <= n) {
            for &m in &far {
                for &e in far.iter().filter(|&&e| e <= m) {
                    let (x, y) = (b.ro().take(n).drop(d), b.ro().take(m).drop(e));
                    let (mx, my) = (b.rw().take(n).drop(d), b.rw().take(m).drop(e));
                    ensure!(x.is_same(y) == (d == e) && mx.is_same(my) == (d == e), "is_same of {:?} and {:?}", (n, d), (m, e));
                    if d < n && e < m {
                        let w = d < m && e < n;
                        ensure!(x.is_overlapped(y) == w && mx.is_overlapped(my) == w, "is_overlapped of {:?} and {:?}", (n, d), (m, e));
                    }
                    cov.trans += 2;
                }
            }
        }
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    c.par("far-pairs", (far.len() * far.len()) as u64, |i, cov| {
        let d = mixed(i, &[far.len() as u64, far.len() as u64]);
        let (oa, ob) = (far[d[0]], far[d[1]]);
        let n = [1, 5, 300][(d[0] + d[1]) % 3];
        pairwise(&pat(i, n), &pat(i + 1, n), oa, ob, ob / 2)?;
        if i < far.len() as u64 {
            // equality and hashing of long containers
            let a = pat(i, oa);
            equality(&a, &a)?;
            for &k in far.iter().filter(|&&k| k < oa).chain([oa.wrapping_sub(1)].iter().filter(|&&k| k < oa)) {
                let mut b = a.clone();
                b[k] = (b[k] + 1) % 3;
                equality(&a, &b)?;
            }
        }
        cov.trans += 6;
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    // min-variants: every pair of lengths
    c.par("min-lengths", 21 * 21 * 4, |i, cov| {
        let d = mixed(i, &[21, 21, 4]);
        let (na, nb) = (d[0], d[1]);
        let n = na.min(nb);
        let (x, y) = (pat(i, na), pat(i + 5, nb));
        let padded = |x: &[u8], k: usize| [&pat(3, k)[..], x, &pat(9, 4)[..]].concat();
        let o = d[2];
        let add = |a: &[u8], b: &[u8]| -> T { a.iter().zip(b).map(|(a, b)| (a + b) % 3).collect() };
        let sub = |a: &[u8], b: &[u8]| -> T { a.iter().zip(b).map(|(a, b)| (3 + a - b) % 3).collect() };
        let frame = |x: &[u8], k: usize, r: &[u8]| -> T {
            let mut f = padded(x, k);
            f[k..k + r.len()].copy_from_slice(r);
            f
        };
        macro_rules! v {
            ($b:expr, $k:expr, $n:expr) => {
                TritSliceMut::from_raw_ptr($k + $n, $b.as_mut_ptr()).drop($k)
            };
        }
        // eq_min
        let (mut bx, mut by) = (padded(&x, o), padded(&y, 1));
        let r = v!(bx, o, na).as_const().eq_min(v!(by, 1, nb).as_const());
        ensure!(r == (x[..n] == y[..n], n), "eq_min of {} and {}: {:?}", na, nb, r);
        let r = v!(bx, o, na).eq_min(v!(by, 1, nb));
        ensure!(r == (x[..n] == y[..n], n), "eq_min of {} and {}: {:?}", na, nb, r);
        let mut z = padded(&y, 1);
        z[1..1 + n].copy_from_slice(&x[..n]);
        ensure!(v!(bx, o, na).eq_min(v!(z, 1, nb)) == (true, n), "eq_min of a prefix");
        // swap_add_min, swap_sub_min: x is the data, y the sponge
        let r = v!(bx, o, na).swap_add_min(v!(by, 1, nb));
        ensure!(r == n && bx == frame(&x, o, &add(&x[..n], &y[..n])) && by == frame(&y, 1, &x[..n]), "swap_add_min {} {}", na, nb);
        let (mut bx, mut by) = (padded(&x, o), padded(&y, 1));
        let r = v!(bx, o, na).swap_sub_min(v!(by, 1, nb));
        let e = sub(&x[..n], &y[..n]);
        ensure!(r == n && bx == frame(&x, o, &e) && by == frame(&y, 1, &e), "swap_sub_min {} {}", na, nb);
        // copy_add_min, copy_sub_min: the output is as long as the input
        for minus in [false, true] {
            let (mut bx, mut by) = (padded(&x, o), padded(&y, 1));
            let out = pat(33, na);
            let mut bo = padded(&out, 2);
            let r = if minus {
                v!(bx, o, na).as_const().copy_sub_min(v!(by, 1, nb), v!(bo, 2, na))
            } else {
                v!(bx, o, na).as_const().copy_add_min(v!(by, 1, nb), v!(bo, 2, na))
            };
            let e = if minus { sub(&x[..n], &y[..n]) } else { add(&x[..n], &y[..n]) };
            let sp = if minus { &e } else { &x };
            ensure!(
                r == n && bx == padded(&x, o) && by == frame(&y, 1, &sp[..n]) && bo == frame(&out, 2, &e),
                "copy_{}_min {} {}",
                if minus { "sub" } else { "add" },
                na,
                nb
            );
        }
        cov.trans += 7;
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    // Equality and hashing
    c.par("eq-contents", 81, |i, cov| {
        for la in 0..=4usize {
            for lb in 0..=4usize {
                for j in 0..81 {
                    let (a, b) = (put_unsigned(i, 4), put_unsigned(j, 4));
                    equality(&a[..la], &b[..lb])?;
                    cov.trans += 1;
                }
            }
        }
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    c.par("eq-flips", 301, |n, cov| {
        let a = pat(n, n as usize);
        equality(&a, &a)?;
        equality(&a, &pat(n, n as usize + 1))?;
        for i in 0..a.len() {
            for v in 1..3 {
                let mut b = a.clone();
                b[i] = (b[i] + v) % 3;
                equality(&a, &b)?;
                cov.trans += 1;
            }
        }
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    // Containers
    c.par("containers", c.q(400, 3000), |n, cov| {
        let n = n as usize;
        let mut z = Trits::zero(n);
        ensure!(z.size() == n && z.is_empty() == (n == 0) && tv(&z) == vec![0; n], "zero({})", n);
        let x = pat(n as u64, n);
        z.slice_mut().put_trits(&x);
        let y = z.clone();
        ensure!(tv(&z) == x && tv(&y) == x && tv(&Trits::from_slice(y.slice())) == x, "container of {}", n);
        ensure!(tv(&TritSlice::from_trits(&y).clone_trits()) == x, "from_trits {}", n);
        TritSliceMut::from_trits_mut(&mut z).set_trit(1);
        ensure!(tv(&z) == vec![1; n] && tv(&y) == x, "a clone shares trits with its original ({})", n);
        for k in (0..8).chain([26, 27, 28, 80, 81, 82, n, n + 1]) {
            let c = pat(77, k);
            let w: T = if k == 0 { vec![0; n] } else { c.iter().copied().cycle().take(n).collect() };
            ensure!(tv(&Trits::cycle_trits(n, &tr(&c))) == w, "cycle_trits({}, {} trits)", n, k);
            cov.trans += 1;
        }
        for (st, t) in [("A", vec![1, 0, 0]), ("BZ", vec![2, 1, 0, 2, 0, 0]), ("", vec![]), ("a", vec![])] {
            let w: T = if t.is_empty() { vec![0; n] } else { t.iter().copied().cycle().take(n).collect() };
            ensure!(tv(&Trits::cycle_str(n, st)) == w, "cycle_str({}, {:?})", n, st);
        }
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    // Position tests: every pair of ranges of one buffer, and ranges of different buffers
    c.one("positions", |cov| {
        let mut b = Buf::new(7);
        let mut o = Buf::new(7);
        let mut rs = vec![];
        for n in 0..=7usize {
            for d in 0..=n {
                rs.push((n, d));
            }
        }
        for &(n, d) in &rs {
            for &(m, e) in &rs {
                let (x, y) = (b.ro().take(n).drop(d), b.ro().take(m).drop(e));
                let (mx, my) = (b.rw().take(n).drop(d), b.rw().take(m).drop(e));
                ensure!(x.is_same(y) == (d == e) && mx.is_same(my) == (d == e), "is_same of {:?} and {:?}", (n, d), (m, e));
                if d < n && e < m {
                    let w = d < m && e < n;
                    ensure!(x.is_overlapped(y) == w && mx.is_overlapped(my) == w, "is_overlapped of {:?} and {:?}", (n, d), (m, e));
                }
                if d < n && e < m {
                    let (y, my) = (o.ro().take(m).drop(e), o.rw().take(m).drop(e));
                    ensure!(!x.is_same(y) && !mx.is_same(my) && !x.is_overlapped(y) && !mx.is_overlapped(my), "ranges of two buffers");
                }
                // the same positions reached through views with another base
                let z = TritSlice::from_raw_ptr(m - e, unsafe { b.v.as_ptr().add(G + e) });
                let mz = TritSliceMut::from_raw_ptr(m - e, unsafe { b.v.as_mut_ptr().add(G + e) });
                ensure!(x.is_same(z) == (d == e) && mx.is_same(mz) == (d == e), "is_same of {:?} and a view based at {}", (n, d), e);
                if d < n && e < m {
                    let w = d < m && e < n;
                    ensure!(x.is_overlapped(z) == w && mx.is_overlapped(mz) == w, "is_overlapped of {:?} and a view based at {}", (n, d), e);
                }
                cov.trans += 6;
            }
        }
        cov.nstates += (rs.len() * rs.len()) as u64;
        cov.traces += 1;
        Ok(())
    });
}

/// Lengths and offsets around the limits of small integer types, of a sponge block and of powers of three.
fn far() -> Vec<usize> {
    let mut f: Vec<usize> = vec![0, 1, 2, 3, 4096, 19683, 32767, 32768];
    for c in [27, 81, 128, 243, 256, 486, 512, 729, 1024, 65536] {
        f.extend([c - 1, c, c + 1]);
    }
    f.sort();
    f
}

fn put_unsigned(mut v: u64, n: usize) -> T {
    (0..n)
        .map(|_| {
            let t = (v % 3) as u8;
            v /= 3;
            t
        })
        .collect()
}

/// Every two-view operation on `a` and `b` (same length) standing at the given offsets of larger buffers.
fn pairwise(a: &[u8], b: &[u8], oa: usize, ob: usize, oy: usize) -> Result<(), String> {
    let n = a.len();
    let mk = |x: &[u8], o: usize| -> T { [&pat(101, o + G)[..], x, &pat(202, 5)[..]].concat() };
    let chk = |what: &str, buf: &[u8], x: &[u8], o: usize| same(&format!("{} of {} trits at {} and {}", what, n, oa, ob), buf, &mk(x, o));
    // offset inside the view: the first half of the shift is a dropped part of a longer view
    let v = |buf: &mut T, o: usize| -> TritSliceMut<'static> {
        let h = o / 2;
        TritSliceMut::from_raw_ptr(o - h + n + 2, unsafe { buf.as_mut_ptr().add(G + h) }).take(o - h + n).drop(o - h)
    };
    let add: T = a.iter().zip(b).map(|(a, b)| (a + b) % 3).collect();
    let sub: T = a.iter().zip(b).map(|(a, b)| (3 + a - b) % 3).collect();
    let (mut x, mut y) = (mk(a, oa), mk(b, ob));
    let e = v(&mut x, oa).as_const().eq(v(&mut y, ob).as_const());
    ensure!(e == (a == b) && e == v(&mut x, oa).eq(v(&mut y, ob)), "eq of {} and {}: {}", s(a), s(b), e);
    ensure!(e == (v(&mut x, oa) == v(&mut y, ob)), "== of {} and {}", s(a), s(b));
    v(&mut x, oa).as_const().copy(v(&mut y, ob));
    chk("copy source", &x, a, oa)?;
    chk("copy", &y, a, ob)?;
    let (mut x, mut y) = (mk(a, oa), mk(b, ob));
    v(&mut x, oa).swap_add(v(&mut y, ob));
    chk("swap_add data", &x, &add, oa)?;
    chk("swap_add state", &y, a, ob)?;
    let (mut x, mut y) = (mk(a, oa), mk(b, ob));
    v(&mut x, oa).swap_sub(v(&mut y, ob));
    chk("swap_sub data", &x, &sub, oa)?;
    chk("swap_sub state", &y, &sub, ob)?;
    let junk = pat(303, n);
    let (mut x, mut y, mut z) = (mk(a, oa), mk(b, ob), mk(&junk, oy));
    v(&mut x, oa).as_const().copy_add(v(&mut y, ob), v(&mut z, oy));
    chk("copy_add input", &x, a, oa)?;
    chk("copy_add state", &y, a, ob)?;
    chk("copy_add output", &z, &add, oy)?;
    let (mut x, mut y, mut z) = (mk(a, oa), mk(b, ob), mk(&junk, oy));
    v(&mut x, oa).as_const().copy_sub(v(&mut y, ob), v(&mut z, oy));
    chk("copy_sub input", &x, a, oa)?;
    chk("copy_sub state", &y, &sub, ob)?;
    chk("copy_sub output", &z, &sub, oy)
}

fn equality(a: &[u8], b: &[u8]) -> Result<(), String> {
    let (x, y) = (tr(a), tr(b));
    let e = a == b;
    // the same contents reached through a longer buffer and through an overwritten one
    let mut long = [&[1u8, 2][..], b, &[2u8]].concat();
    let z = slm(&mut long).take(2 + b.len()).drop(2);
    let mut w = Trits::zero(b.len());
    w.slice_mut().set_trit(2);
    w.slice_mut().put_trits(b);
    ensure!(
        (x == y) == e && (x != y) != e && (x.slice() == y.slice()) == e && (x.slice() == z.as_const()) == e && (x == w) == e,
        "equality of {} and {} is not {}",
        s(a),
        s(b),
        e
    );
    if e {
        let l = z.as_const().clone_trits();
        ensure!(h64(&x) == h64(&y) && h64(&x) == h64(&w) && h64(&x) == h64(&l), "hashes of equal containers {} differ", s(a));
    }
    Ok(())
}

// ------------------------------------------------------------------------------ C05

macro_rules! width {
    ($c:expr, $name:literal, $n:expr, $t:ty, $getf:ident, $putf:ident, $bg:expr) => {{
        let max = (3i128.pow($n) - 1) / 2;
        let total = (2 * max + 1) as u64;
        let step = 6561u64.min(total);
        $c.par($name, (total + step - 1) / step, |i, cov| {
            let mut buf = [0u8; $n + 8];
            for v in i * step..((i + 1) * step).min(total) {
                let v = v as i128 - max;
                let want = put(v, $n);
                for &(g, off) in &[(1u8, 3usize), (2, 0), (0, 5)][..$bg] {
                    buf.fill(g);
                    slm(&mut buf).take(off + $n).drop(off).$putf(v as $t);
                    if buf[off..off + $n] != want[..] || buf[..off].iter().chain(&buf[off + $n..]).any(|&t| t != g) {
                        return Err(format!("{} of {} at offset {} gives {} on a background of {}", stringify!($putf), v, off, s(&buf), g));
                    }
                    let r = sl(&buf).drop(off).$getf();
                    if r as i128 != v {
                        return Err(format!("{} of {} gives {}", stringify!($getf), s(&want), r));
                    }
                }
                cov.case(v != 0);
            }
            cov.sample(|| format!("{} / {} of all values, from {}", stringify!($putf), stringify!($getf), (i * step) as i128 - max));
            Ok(())
        });
    }};
}

pub fn c05(c: &Ctx) {
    width!(c, "trint1", 1, i8, get1, put1, 3);
    width!(c, "trint3", 3, i8, get3, put3, 3);
    width!(c, "trint6", 6, i16, get6, put6, 3);
    width!(c, "trint9", 9, i16, get9, put9, 3);
    width!(c, "trint18-all", 18, i32, get18, put18, c.q(1, 3));
    // 18 trits: each half over all its values with several values of the other half
    let other = [0i128, 1, -1, 9841, -9841, 9840, -9840, 4921, -4920, 3280];
    c.par("trint18", 27 * 10, |i, cov| {
        let mut buf = [0u8; 24];
        let o = other[(i % 10) as usize];
        for k in 0..729 {
            let a = (i / 10) as i128 * 729 + k - 9841;
            for v in [a + 19683 * o, o + 19683 * a] {
                let want = put(v, 18);
                let g = (k % 3) as u8;
                buf.fill(g);
                slm(&mut buf).drop(3).put18(v as i32);
                ensure!(buf[3..21] == want[..] && buf[..3] == [g; 3] && buf[21..] == [g; 3], "put18({}) gives {}", v, s(&buf));
                let r = sl(&buf).drop(3).get18();
                ensure!(r as i128 == v, "get18 of {} gives {}, not {}", s(&want), r, v);
                cov.case(v != 0);
            }
        }
        Ok(())
    });
    // every field at every offset of a container
    let offs: Vec<usize> = (0..c.q(1100, 3000)).chain(far().into_iter().filter(|&o| o > 3000)).collect();
    c.par("offsets", offs.len() as u64, |i, cov| {
        let o = offs[i as usize];
        for (k, &v) in [0i128, 1, -1, 193710244, -193710244, 9842, -9841, 104729, -7, 129140163].iter().enumerate() {
            let mut buf = vec![k as u8 % 3; o + 24];
            let mut w = buf.clone();
            macro_rules! at {
                ($n:expr, $putf:ident, $getf:ident, $t:ty) => {
                    let m = 3i128.pow($n);
                    let x = (v + (m - 1) / 2).rem_euclid(m) - (m - 1) / 2;
                    w[o..o + $n].copy_from_slice(&put(x, $n));
                    slm(&mut buf).drop(o).$putf(x as $t);
                    ensure!(buf == w, "{} of {} at offset {}", stringify!($putf), x, o);
                    let r = sl(&buf).drop(o).$getf() as i128;
                    ensure!(r == x, "{} of {} at offset {} gives {}", stringify!($getf), x, o, r);
                };
            }
            at!(18, put18, get18, i32);
            at!(9, put9, get9, i16);
            at!(6, put6, get6, i16);
            at!(3, put3, get3, i8);
            at!(1, put1, get1, i8);
            let y = v.rem_euclid(27) as u8;
            slm(&mut buf).drop(o).put_tryte(y);
            w[o..o + 3].copy_from_slice(&put_unsigned(y as u64, 3));
            ensure!(buf == w && sl(&buf).drop(o).get_tryte() == y, "tryte {} at offset {}", y, o);
            let ch = sl(&buf).drop(o).get_char();
            ensure!(ch == tryte_to_char(refm::get(&w[o..o + 3]).rem_euclid(27) as u8), "character at offset {}: {:?}", o, ch);
            w[o..o + 3].copy_from_slice(&[2, 1, 0]);
            ensure!(slm(&mut buf).drop(o).put_char('B') && buf == w, "put_char at offset {}", o);
            cov.case(true);
        }
        Ok(())
    });
    // unsigned trytes and characters
    c.one("trytes", |cov| {
        let chars = "9ABCDEFGHIJKLMNOPQRSTUVWXYZ";
        for v in 0..27u8 {
            for g in 0..3u8 {
                for off in 0..4 {
                    let mut buf = [g; 9];
                    slm(&mut buf).drop(off).put_tryte(v);
                    ensure!(buf[off..off + 3] == put_unsigned(v as u64, 3)[..], "put_tryte({}) gives {}", v, s(&buf));
                    ensure!(buf[..off].iter().chain(&buf[off + 3..]).all(|&t| t == g), "put_tryte({}) at {} touches others", v, off);
                    ensure!(sl(&buf).drop(off).get_tryte() == v, "get_tryte of {}", v);
                    // characters follow the balanced value of the trits
                    let ch = chars.chars().nth(get(&put_unsigned(v as u64, 3)).rem_euclid(27) as usize).unwrap();
                    ensure!(sl(&buf).drop(off).get_char() == ch, "get_char of {} is {:?}", v, sl(&buf).drop(off).get_char());
                    let mut b2 = [g; 9];
                    ensure!(slm(&mut b2).drop(off).put_char(ch) && b2 == buf, "put_char({:?}) gives {}", ch, s(&b2));
                    cov.case(v != 0);
                }
            }
            let ch = chars.chars().nth(v as usize).unwrap();
            let t3 = if v > 13 { v as i8 - 27 } else { v as i8 };
            ensure!(tryte_to_char(v) == ch && tryte_from_char(ch) == Some(v), "tryte {} and {:?}", v, ch);
            ensure!(trint3_to_char(t3) == ch && trint3_from_char(ch) == Some(t3), "trint3 {} and {:?}", t3, ch);
            ensure!(tryte_to_trint3(v) == t3 && tryte_from_trint3(t3) == v, "tryte {} and trint3 {}", v, t3);
        }
        Ok(())
    });
    c.par("chars", 0x110, |i, cov| {
        for u in (i as u32) << 12..(i as u32 + 1) << 12 {
            let Some(ch) = char::from_u32(u) else { continue };
            let ok = ch == '9' || ch.is_ascii_uppercase();
            ensure!(tryte_from_char(ch).is_some() == ok, "tryte_from_char({:?})", ch);
            ensure!(trint3_from_char(ch).is_some() == ok, "trint3_from_char({:?})", ch);
            let mut b = [1u8, 2, 1, 2];
            let r = slm(&mut b).put_char(ch);
            ensure!(r == ok && (ok || b == [1, 2, 1, 2]), "put_char({:?}) returns {}", ch, r);
            if !ok {
                let st: String = ['A', ch].iter().collect();
                ensure!(Trits::from_str(&st).is_none(), "from_str({:?}) accepted", st);
                let st: String = [ch, 'A'].iter().collect();
                let mut b = [0u8; 9];
                ensure!(!slm(&mut b).from_str(&st), "from_str({:?}) accepted", st);
            }
            cov.case(true);
        }
        Ok(())
    });
    // strings of up to three characters, in views of every length
    let alpha: Vec<char> = "9ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect();
    c.par("strings", 28 * 28, |i, cov| {
        for k in 0..28u64 {
            let d = [i % 28, i / 28, k];
            let mut st = String::new();
            for x in d {
                if x < 27 {
                    st.push(alpha[x as usize]);
                }
            }
            let t = refm::from_str(&st);
            let got = Trits::from_str(&st);
            ensure!(got.as_ref().map(tv).as_ref() == Some(&t), "from_str({:?}) gives {:?}", st, got);
            let got = got.unwrap();
            ensure!(got.to_str() == st && got.slice().to_str() == st && format!("{}", got) == st, "to_str of {:?} is {:?}", st, got.to_str());
            for n in 0..=9usize {
                let mut b = [1u8; 14];
                let r = slm(&mut b).take(2 + n).drop(2).from_str(&st);
                let fits = t.iter().skip(n).all(|&x| x == 0);
                ensure!(r == fits, "from_str({:?}) into {} trits returns {}", st, n, r);
                if fits {
                    let m = n.min(t.len());
                    ensure!(b[2..2 + m] == t[..m] && b[2 + m..].iter().all(|&x| x == 1) && b[..2] == [1, 1], "from_str({:?}) into {} trits: {}", st, n, s(&b));
                    let mut p = t.clone();
                    p.resize(t.len().max(n), 0);
                    let want = refm::to_str(&p[..(m + 2) / 3 * 3]);
                    let v = sl(&b).take(2 + m).drop(2);
                    ensure!(v.to_str() == want && format!("{}", v) == want, "to_str of the first {} trits of {:?} is {:?}", m, st, v.to_str());
                } else {
                    ensure!(b[2 + n..].iter().all(|&x| x == 1) && b[..2] == [1, 1], "from_str({:?}) into {} trits writes outside", st, n);
                }
            }
            cov.case(!st.is_empty());
        }
        Ok(())
    });
    // every view of every length up to 9 prints with its last tryte padded
    c.par("print", 19683, |i, cov| {
        let t = put_unsigned(i, 9);
        for n in 0..=9 {
            let mut p = t[..n].to_vec();
            p.resize((n + 2) / 3 * 3, 0);
            let want = refm::to_str(&p);
            let v = sl(&t).take(n);
            ensure!(v.to_str() == want, "{} prints as {:?}, not {:?}", s(&t[..n]), v.to_str(), want);
            if n == 9 {
                ensure!(tr(&t).to_str() == want && format!("{}", tr(&t)) == want, "container prints differently");
                let back = Trits::from_str(&want);
                ensure!(back.as_ref().map(tv) == Some(t.clone()), "{:?} does not parse back", want);
            }
            cov.case(n > 0);
        }
        Ok(())
    });
    c.par("long-strings", c.q(1100, 3000), |n, cov| {
        let t = pat(n, 3 * n as usize);
        let st = refm::to_str(&t);
        let x = Trits::from_str(&st);
        ensure!(x.as_ref().map(tv) == Some(t.clone()) && tr(&t).to_str() == st, "string of {} trytes", n);
        cov.case(true);
        Ok(())
    });
    // all trit patterns decode (get) to the balanced value, also of the wide fields through their parts
    c.par("patterns", 19683, |i, cov| {
        let t = put_unsigned(i, 9);
        ensure!(sl(&t).get9() as i128 == get(&t), "get9 of {}", s(&t));
        ensure!(sl(&t).drop(3).get6() as i128 == get(&t[3..]), "get6 of {}", s(&t[3..]));
        ensure!(sl(&t).drop(6).get3() as i128 == get(&t[6..]), "get3 of {}", s(&t[6..]));
        let u = [&t[..], &put_unsigned(i * 7919 % 19683, 9)].concat();
        ensure!(sl(&u).get18() as i128 == get(&u), "get18 of {}", s(&u));
        cov.cases(4);
        Ok(())
    });
    // remainder helpers
    c.par("mods", 121, |i, cov| {
        for t in (i as i32 - 60) * 2000..(i as i32 - 59) * 2000 {
            let t = t as i128;
            for (m, (r, q)) in [
                (3, { let (r, q) = mods1(t as i32); (r as i128, q as i128) }),
                (27, { let (r, q) = mods3(t as i32); (r as i128, q as i128) }),
                (19683, { let (r, q) = mods9(t as i32); (r as i128, q as i128) }),
            ] {
                ensure!(r + m * q == t && 2 * r.abs() < m, "mods {} by {}: {} {}", t, m, r, q);
            }
            if t >= 0 {
                let (r, q) = mods1_usize(t as usize);
                ensure!(r as i128 + 3 * q as i128 == t && r.abs() <= 1, "mods1_usize({})", t);
                let (r, q) = mods3_usize(t as usize);
                ensure!(r as i128 + 27 * q as i128 == t && r.abs() <= 13, "mods3_usize({})", t);
            }
            cov.case(true);
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------ C06

pub fn c06(c: &Ctx) {
    c.par("values", 10, |w, cov| {
        let w = w as usize;
        let total = 3u64.pow(w as u32);
        let mut b = vec![0u8; w + 7];
        for v in 0..total {
            for off in 0..4 {
                let g = (off % 3) as u8;
                b.fill(g);
                let x = put_unsigned(v, w);
                b[off..off + w].copy_from_slice(&x);
                let r = slm(&mut b).take(off + w).drop(off).inc();
                ensure!(r == (v + 1 < total), "inc of {} returns {}", s(&x), r);
                ensure!(b[off..off + w] == put_unsigned((v + 1) % total, w)[..], "inc of {} gives {}", s(&x), s(&b[off..off + w]));
                ensure!(b[..off].iter().chain(&b[off + w..]).all(|&t| t == g), "inc of {} at {} changes trits outside", s(&x), off);
                cov.trans += 1;
                cov.case(true);
            }
        }
        cov.nstates += total;
        cov.traces += 1;
        Ok(())
    });
    // carries of every length, stopping on either value, into every width
    c.par("carries", 245, |w, cov| {
        let w = w as usize;
        for k in 0..=w {
            for stop in 0..2u8 {
                for rest in 0..3u64 {
                    let mut b = vec![2u8; w + 4];
                    let r0 = fill(rest, w);
                    b[2 + k..2 + w].copy_from_slice(&r0[k..]);
                    if k < w {
                        b[2 + k] = stop;
                    }
                    let mut want = b.clone();
                    want[2..2 + k].fill(0);
                    if k < w {
                        want[2 + k] += 1;
                    }
                    let r = slm(&mut b).take(2 + w).drop(2).inc();
                    ensure!(r == (k < w), "inc of {} trits with {} twos returns {}", w, k, r);
                    same(&format!("inc of {} trits with {} twos", w, k), &b, &want)?;
                    cov.trans += 1;
                    cov.case(true);
                }
            }
        }
        cov.nstates += w as u64 + 1;
        cov.traces += 1;
        Ok(())
    });
    // long counters, and counters far into a container
    let f = far();
    c.par("long-carries", (f.len() * f.len()) as u64, |i, cov| {
        let d = mixed(i, &[f.len() as u64, f.len() as u64]);
        let (w, k) = (f[d[0]], f[d[1]]);
        if k > w {
            return Ok(());
        }
        for (off, stop) in [(0, 0u8), (0, 1), (k, 0), (k, 1)] {
            let mut b = vec![2u8; off + w + 2];
            if k < w {
                b[off + k] = stop;
                b[off + k + 1..off + w].fill(stop);
            }
            let mut want = b.clone();
            want[off..off + k].fill(0);
            if k < w {
                want[off + k] += 1;
            }
            let r = slm(&mut b).take(off + w).drop(off).inc();
            ensure!(r == (k < w), "inc of {} trits with {} twos at offset {} returns {}", w, k, off, r);
            same(&format!("inc of {} trits with {} twos at offset {}", w, k, off), &b, &want)?;
            cov.trans += 1;
            cov.case(true);
        }
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    c.par("offsets", c.q(1100, 3000), |off, cov| {
        let off = off as usize;
        for w in 0..4usize {
            for v in 0..3u64.pow(w as u32) {
                let mut b = vec![1u8; off + w + 3];
                b[off..off + w].copy_from_slice(&put_unsigned(v, w));
                let mut want = b.clone();
                want[off..off + w].copy_from_slice(&put_unsigned((v + 1) % 3u64.pow(w as u32), w));
                let r = slm(&mut b).take(off + w).drop(off).inc();
                ensure!(r == (v + 1 < 3u64.pow(w as u32)) && b == want, "inc of {} ({} trits) at offset {}: {}, {}", v, w, off, r, s(&b[off..]));
                cov.trans += 1;
                cov.case(true);
            }
        }
        cov.nstates += 1;
        cov.traces += 1;
        Ok(())
    });
    // the complete walk from zero to the first overflow
    c.par("walk", c.q(14, 18), |w, cov| {
        let w = w as usize;
        let total = 3u64.pow(w as u32);
        let mut t = Trits::zero(w);
        let mut n = 0u64;
        loop {
            let x = tv(&t);
            let v = x.iter().rev().fold(0u64, |a, &d| 3 * a + d as u64);
            ensure!(v == n, "step {} of {} trits reads {}", n, w, s(&x));
            n += 1;
            cov.trans += 1;
            if !t.slice_mut().inc() {
                break;
            }
            ensure!(n < total, "{} trits do not overflow after {} steps", w, n);
        }
        ensure!(n == total, "{} trits overflow after {} steps", w, n);
        ensure!(tv(&t) == vec![0; w], "overflow leaves {}", s(&tv(&t)));
        cov.nstates += total;
        cov.cases(total);
        cov.traces += 1;
        Ok(())
    });
}
