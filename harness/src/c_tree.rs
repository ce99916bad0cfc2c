//! C13 Merkle traversals, C14 stored trees: over a free algebra of nodes.

use crate::ensure;
use crate::rt::{Cov, Ctx};
use iota_mam::mss::mt::*;
use iota_mam::mss::{mtcomplete, mttraversal};
use std::cell::RefCell;

/// The subtree of height `d` at position `i`; anything that is not a subtree of the tree is `Bad`.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Term {
    Sub(usize, usize),
    Cur,
    Bad,
}
use Term::*;

fn merge(a: &Term, b: &Term) -> Term {
    match (a, b) {
        (Sub(d, i), Sub(e, j)) if d == e && i % 2 == 0 && *j == i + 1 => Sub(d + 1, i / 2),
        _ => Bad,
    }
}
fn leaf(h: usize) -> impl Fn(usize) -> Term {
    move |i| if i < 1 << h { Sub(0, i) } else { Bad }
}

/// Path nodes with the side they stand on, as folding meets them.
fn path(p: &APath<Term>) -> (Vec<(Term, bool)>, bool) {
    let seen = RefCell::new(vec![]);
    let rec = |a: &Term, b: &Term| {
        let mut s = seen.borrow_mut();
        match (a, b) {
            (Cur, x) => s.push((*x, true)),
            (x, Cur) => s.push((*x, false)),
            _ => s.push((Bad, false)),
        }
        Cur
    };
    let mut c = Cur;
    let done = p.fold_mut(&rec, &mut c);
    (seen.into_inner(), done)
}

#[derive(PartialEq, Debug)]
struct Obs {
    height: usize,
    skn: usize,
    root: Term,
    path: Option<(usize, Vec<(Term, bool)>, bool, Term)>,
}
fn observe<MT: TraversableMerkleTree<Term>>(t: &MT) -> Obs {
    let (h, i) = (t.height(), t.skn());
    let path = (i < 1 << h).then(|| {
        let p = t.apath();
        let (v, done) = path(&p);
        (p.skn(), v, done, p.fold(&merge, &Sub(0, i)))
    });
    Obs { height: h, skn: i, root: *t.root(), path }
}
fn expected(h: usize, i: usize) -> Obs {
    let path = (i < 1 << h).then(|| {
        let v = (0..h).map(|d| (Sub(d, (i >> d) ^ 1), i >> d & 1 == 0)).collect();
        (i, v, true, Sub(h, 0))
    });
    Obs { height: h, skn: i, root: Sub(h, 0), path }
}
fn at<MT: TraversableMerkleTree<Term>>(what: &str, t: &MT, h: usize, i: usize, cov: &mut Cov) -> Result<(), String> {
    let (g, w) = (observe(t), expected(h, i));
    cov.state(&(what.len(), h, i));
    ensure!(g == w, "{} of height {} at leaf {}: {:?} instead of {:?}", what, h, i, g, w);
    Ok(())
}

fn traverse<MT: TraversableMerkleTree<Term> + Clone>(what: &str, h: usize, cov: &mut Cov) -> Result<(), String> {
    let g = leaf(h);
    let mut t = MT::gen(&g, &merge, h);
    for i in 0..1usize << h {
        at(what, &t, h, i, cov)?;
        let cp = (h <= 10).then(|| t.clone());
        let more = t.next(&g, &merge);
        cov.trans += 1;
        ensure!(more == (i + 1 < 1 << h), "{} of height {}: next at leaf {} returned {}", what, h, i, more);
        if let Some(cp) = cp {
            at(what, &cp, h, i, cov)?;
        }
    }
    for k in 0..4 {
        at(what, &t, h, 1 << h, cov)?;
        let mut cp = t.clone();
        ensure!(!t.next(&g, &merge) && !cp.next(&g, &merge), "{} of height {}: next number {} after the end returned true", what, h, k);
        cov.trans += 2;
    }
    cov.traces += 1;
    cov.sample(|| format!("{} of height {}: {} advances and 4 more after the end", what, h, 1 << h));
    Ok(())
}

type C = mtcomplete::MT<Term>;
type V = mttraversal::MT<Term>;
const NC: &str = "complete tree";
const NV: &str = "traversal";

pub fn c13(c: &Ctx) {
    let maxh = c.q(20u64, 22);
    c.par("life", (maxh + 1) * 2, |i, cov| {
        let h = (maxh - i / 2) as usize;
        if i % 2 == 0 {
            traverse::<C>(NC, h, cov)
        } else {
            traverse::<V>(NV, h, cov)
        }
    });
    // the same with generators behind shared pointers
    c.par("shared-generators", 8, |h, cov| {
        let h = h as usize;
        let (g, m) = (std::rc::Rc::new(leaf(h)), std::rc::Rc::new(merge));
        let mut a = C::gen(&g, &m, h);
        let mut b = V::gen(&g, &m, h);
        for i in 0..1usize << h {
            at(NC, &a, h, i, cov)?;
            at(NV, &b, h, i, cov)?;
            let (x, y) = (a.next(&g, &m), b.next(&g, &m));
            cov.trans += 2;
            ensure!(x == y && x == (i + 1 < 1 << h), "next at {} of height {}: {} {}", i, h, x, y);
        }
        cov.traces += 2;
        Ok(())
    });
    // sizes
    c.one("sizes", |cov| {
        for h in 0..30usize {
            ensure!(max_skn(h) == 1 << h && tree_size(h) == (2 << h) - 1, "sizes of height {}", h);
            cov.nstates += 1;
        }
        Ok(())
    });
}

fn advance<MT: TraversableMerkleTree<Term>>(t: &mut MT, n: usize) {
    let h = t.height();
    for _ in 0..n {
        t.next(&leaf(h), &merge);
    }
}
fn reload<MT: TraversableMerkleTree<Term> + PartialEq>(what: &str, t: &MT, h: usize, i: usize) -> Result<MT, String> {
    let (sh, si, nodes) = t.store();
    ensure!((sh, si) == (h, i), "{} of height {} at {} stores height {} leaf {}", what, h, i, sh, si);
    let n = nodes.len();
    let Some(l) = MT::load(sh, si, nodes.clone()) else {
        return Err(format!("{} of height {} at {} is not loaded back from its {} nodes", what, h, i, n));
    };
    let (sh, si, again) = l.store();
    ensure!((sh, si) == (h, i) && again == nodes, "{} of height {} at {} stores differently after a load", what, h, i);
    ensure!(l == *t, "{} of height {} at {} is not equal to itself stored and loaded", what, h, i);
    Ok(l)
}
/// Rest of the life, reloading at each leaf for which `when` says so.
fn rest<MT: TraversableMerkleTree<Term> + PartialEq>(
    what: &str,
    mut t: MT,
    h: usize,
    from: usize,
    when: &dyn Fn(usize) -> bool,
    cov: &mut Cov,
) -> Result<(), String> {
    let g = leaf(h);
    for i in from..=(1usize << h) + 2 {
        let i = i.min(1 << h);
        if when(i) {
            t = reload(what, &t, h, i)?;
            cov.trans += 1;
        }
        at(what, &t, h, i, cov)?;
        let more = t.next(&g, &merge);
        cov.trans += 1;
        ensure!(more == (i + 1 < 1 << h), "reloaded {} of height {}: next at {} returned {}", what, h, i, more);
    }
    cov.traces += 1;
    Ok(())
}

fn points<MT: TraversableMerkleTree<Term> + Clone + PartialEq>(what: &str, h: usize, pairs: bool, cov: &mut Cov) -> Result<(), String> {
    let g = leaf(h);
    let mut t = MT::gen(&g, &merge, h);
    // reload at one point, or at every point from it on
    for p in 0..=1usize << h {
        rest(what, t.clone(), h, p, &|i| i == p, cov)?;
        rest(what, t.clone(), h, p, &|_| true, cov)?;
        if pairs {
            for q in p..=1usize << h {
                rest(what, t.clone(), h, p, &|i| i == p || i == q, cov)?;
            }
        }
        // reloaded twice at the same point
        let l = reload(what, &reload(what, &t, h, p)?, h, p)?;
        at(what, &l, h, p, cov)?;
        t.next(&g, &merge);
    }
    cov.sample(|| format!("{} of height {}: store and load at every leaf{}", what, h, if pairs { " and every two leaves" } else { "" }));
    Ok(())
}

fn refusals<MT: TraversableMerkleTree<Term>>(what: &str, h: usize, cov: &mut Cov) -> Result<(), String> {
    let mut right = vec![];
    let mut t = MT::gen(&leaf(h), &merge, h);
    for _ in 0..=1usize << h {
        right.push(t.store().2.len());
        advance(&mut t, 1);
    }
    ensure!(right[1 << h] == 1, "an exhausted {} of height {} stores {} nodes", what, h, right[1 << h]);
    let top = right.iter().max().unwrap() + 4;
    for i in (0..(1usize << h) + 4).chain([1 << 20, usize::MAX / 2, usize::MAX]) {
        for n in (0..top).chain([1000]) {
            let nodes = vec![Bad; n];
            let want = i <= 1 << h && n == right[i];
            let got = MT::load(h, i, nodes).is_some();
            cov.trans += 1;
            ensure!(got == want, "{} of height {}: load of leaf {} with {} nodes gives {} (it stores {:?})", what, h, i, n, got, right.get(i));
        }
    }
    cov.traces += 1;
    Ok(())
}

pub fn c14(c: &Ctx) {
    let maxh = c.q(9u64, 10);
    let maxp = c.q(6, 7);
    c.par("points", (maxh + 1) * 2, |i, cov| {
        let h = (maxh - i / 2) as usize;
        if i % 2 == 0 {
            points::<C>(NC, h, h <= maxp, cov)
        } else {
            points::<V>(NV, h, h <= maxp, cov)
        }
    });
    let maxr = c.q(6u64, 8);
    c.par("refusals", (maxr + 1) * 2, |i, cov| {
        let h = (maxr - i / 2) as usize;
        if i % 2 == 0 {
            refusals::<C>(NC, h, cov)
        } else {
            refusals::<V>(NV, h, cov)
        }
    });
    // trees are equal exactly when they are at the same point of the same life
    c.par("equality", 2, |i, cov| {
        fn go<MT: TraversableMerkleTree<Term> + Clone + PartialEq>(what: &str, cov: &mut Cov) -> Result<(), String> {
            let mut all = vec![];
            for h in 0..=5 {
                let mut t = MT::gen(&leaf(h), &merge, h);
                for i in 0..=1usize << h {
                    all.push((h, i, t.clone()));
                    t.next(&leaf(h), &merge);
                }
            }
            for (h, i, a) in &all {
                for (g, j, b) in &all {
                    cov.trans += 1;
                    ensure!((a == b) == ((h, i) == (g, j)), "{}: height {} at {} and height {} at {} compare wrongly", what, h, i, g, j);
                }
                // the same point with one stored node changed
                let (_, _, nodes) = a.store();
                for k in 0..nodes.len() {
                    let mut n = nodes.clone();
                    n[k] = Bad;
                    let Some(b) = MT::load(*h, *i, n) else { return Err("not loaded".into()) };
                    cov.trans += 1;
                    ensure!(*a != b, "{}: height {} at {} equals one with node {} changed", what, h, i, k);
                }
                cov.state(&(what.len(), h, i));
            }
            cov.traces += 1;
            Ok(())
        }
        if i == 0 {
            go::<C>(NC, cov)
        } else {
            go::<V>(NV, cov)
        }
    });
    // every subset of reload points of small trees
    c.par("subsets", 1 << 9, |mask, cov| {
        for h in 0..=3usize {
            if mask >> ((1 << h) + 1) != 0 {
                continue;
            }
            rest(NC, C::gen(&leaf(h), &merge, h), h, 0, &|i| mask >> i & 1 == 1, cov)?;
            rest(NV, V::gen(&leaf(h), &merge, h), h, 0, &|i| mask >> i & 1 == 1, cov)?;
        }
        Ok(())
    });
    // taller trees at chosen points
    let hs: Vec<usize> = (9..=c.q(16, 18)).collect();
    c.par("tall", hs.len() as u64 * 2, |i, cov| {
        fn go<MT: TraversableMerkleTree<Term> + Clone + PartialEq>(what: &str, h: usize, cov: &mut Cov) -> Result<(), String> {
            let mut t = MT::gen(&leaf(h), &merge, h);
            let n = 1usize << h;
            let mut pts: Vec<usize> = (0..h).flat_map(|b| [(1 << b) - 1, 1 << b, n - (1 << b), n - 1 - (1 << b)]).chain([n / 3, n]).collect();
            pts.sort();
            pts.dedup();
            let mut i = 0;
            for p in pts {
                advance(&mut t, p - i);
                i = p;
                let mut l = reload(what, &t, h, p)?;
                let mut o = t.clone();
                for k in 0..(if h <= 12 { n - p + 3 } else { 600 }) {
                    let j = (p + k).min(n);
                    at(what, &l, h, j, cov)?;
                    ensure!(l.next(&leaf(h), &merge) == o.next(&leaf(h), &merge), "{} of height {} reloaded at {}: next at {}", what, h, p, j);
                    cov.trans += 2;
                }
                cov.traces += 1;
                // one node missing, one too many
                let (_, _, mut nodes) = t.store();
                nodes.push(Bad);
                ensure!(MT::load(h, p, nodes.clone()).is_none(), "{} of height {} at {} loads from one node too many", what, h, p);
                nodes.truncate(nodes.len() - 2);
                ensure!(MT::load(h, p, nodes).is_none(), "{} of height {} at {} loads from one node too few", what, h, p);
            }
            Ok(())
        }
        let h = hs[i as usize / 2];
        if i % 2 == 0 {
            go::<C>(NC, h, cov)
        } else {
            go::<V>(NV, h, cov)
        }
    });
    // exhausted trees of every height
    c.par("exhausted", 21, |h, cov| {
        let h = h as usize;
        fn go<MT: TraversableMerkleTree<Term> + PartialEq>(what: &str, h: usize, cov: &mut Cov) -> Result<(), String> {
            let n = 1usize << h;
            let Some(t) = MT::load(h, n, vec![Sub(h, 0)]) else {
                return Err(format!("exhausted {} of height {} is not loaded", what, h));
            };
            at(what, &t, h, n, cov)?;
            rest(what, t, h, n, &|_| true, cov)?;
            for (i, k) in [(n, 0), (n, 2), (n + 1, 1), (n + 1, 0), (2 * n + 1, 1)] {
                ensure!(MT::load(h, i, vec![Sub(h, 0); k]).is_none(), "{} of height {} loads leaf {} with {} nodes", what, h, i, k);
            }
            Ok(())
        }
        go::<C>(NC, h, cov)?;
        go::<V>(NV, h, cov)
    });
    // a height is not believed because it is claimed: with fewer nodes than the tree has levels,
    // loading refuses, and does so without walking a tree of that height
    c.par("claims", c.q(46, 50), |k, cov| {
        let h = 14 + k as usize;
        fn go<MT: TraversableMerkleTree<Term>>(what: &str, h: usize, cov: &mut Cov) -> Result<(), String> {
            let n = if h < 63 { 1usize << h } else { usize::MAX / 2 };
            for i in [0, 1, 2, 1 << 13, n / 3, n / 2, n - 2, n - 1] {
                for k in [0, 1, 2, h / 2, h - 1] {
                    cov.trans += 1;
                    ensure!(MT::load(h, i, vec![Bad; k]).is_none(), "{} of height {} loads leaf {} with {} nodes", what, h, i, k);
                }
            }
            for i in [n + 1, n + 2, 2 * n - 1, usize::MAX] {
                for k in [0, 1, h - 1, h, 2 * h] {
                    cov.trans += 1;
                    ensure!(MT::load(h, i, vec![Bad; k]).is_none(), "{} of height {} loads leaf {} with {} nodes", what, h, i, k);
                }
            }
            cov.state(&(what.len(), h));
            cov.traces += 1;
            Ok(())
        }
        go::<C>(NC, h, cov)?;
        go::<V>(NV, h, cov)
    });
}
