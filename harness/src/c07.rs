//! C07: indices order like a pre-order walk of the tree.
use crate::huge;
use crate::ix::*;
use crate::sx::*;
use std::cmp::Ordering;

fn compare<I: Ix>(x: &I, y: &I, want: Ordering) {
    check!(x.cmp(y) == want);
    check!(y.cmp(x) == want.reverse());
    check!(x.partial_cmp(y) == Some(want));
    check!((x == y) == (want == Ordering::Equal));
    check!((x != y) == (want != Ordering::Equal));
    check!((x < y) == (want == Ordering::Less));
    check!((x <= y) == (want != Ordering::Greater));
    check!((x > y) == (want == Ordering::Greater));
    check!((x >= y) == (want != Ordering::Less));
}

fn pairs<I: Ix>() {
    let (a, b) = depth_pairs::<I>();
    let (x, c) = any_index_of::<I>(a);
    let (y, e) = any_index_of::<I>(b);
    let want = lex(&c, &e);
    compare(&x, &y, want);
    check!(x.cmp(&x) == Ordering::Equal);
    observe(want as i8 as u8 as u64);
}

/// an ancestor before each of its descendants
fn ancestors<I: VarIx>() {
    let cap = I::CAP.min(40);
    let a = choose(cap - 1);
    let n = if tier() == 0 { choose_of(&[1, 2, cap - a]) } else { 1 + choose(cap - 1) };
    if a + n > I::CAP {
        return;
    }
    let (x, _) = any_index_of::<I>(a);
    let y = x.desc(&syms::<I::C>(n)).unwrap();
    compare(&x, &y, Ordering::Less);
    compare(&y, &x, Ordering::Greater);
    check!(x.clone().max(y.clone()) == y);
    check!(y.clone().min(x.clone()) == x);
}

/// the order survives a change of storage flavour
fn flavours<A: Fam>() {
    if flag() {
        let c = syms::<A::C>(A::CAP);
        let e = syms::<A::C>(A::CAP);
        let (x, y) = (ok(A::F::build(&c)), ok(A::F::build(&e)));
        let want = lex(&c, &e);
        check!(x.cmp(&y) == want);
        check!(A::f2s(x.clone()).cmp(&A::f2s(y.clone())) == want);
        check!(A::f2d(x).cmp(&A::f2d(y)) == want);
        return;
    }
    let (a, b) = if A::CAP > 16 && tier() == 0 {
        let t = [0, 1, 2, A::CAP / 2, A::CAP - 1, A::CAP];
        (choose_of(&t), choose_of(&t))
    } else {
        depth_pairs::<A::S>()
    };
    let (x, c) = any_index_of::<A::S>(a);
    let (y, e) = any_index_of::<A::S>(b);
    let want = lex(&c, &e);
    let (u, v) = (A::s2d(x.clone()), A::s2d(y.clone()));
    check!(u.cmp(&v) == want);
    let (u, v) = (ok(A::d2s(u)), ok(A::d2s(v)));
    check!(u.cmp(&v) == want);
    if a == A::CAP && b == A::CAP {
        check!(A::s2f(x).cmp(&A::s2f(y)) == want);
    }
}

/// indices of many hundred levels that differ near the end only
fn huge<I: VarIx>() {
    let d = choose_of(&[300, 515, 683, 1025, 2731, 4097, 8193, 10924, 16385, 21847, 32769]);
    let e = d + choose(2) - 1;
    let (mut a, mut b) = (huge::some(I::zeros(d)), huge::some(I::zeros(e)));
    let mut want = std::cmp::Ordering::Equal;
    for l in d - 4..d + 1 {
        let (x, y) = (I::C::sym(), I::C::sym());
        let (p, q) = (l < d, l < e);
        if p {
            a.set(l, x)
        }
        if q {
            b.set(l, y)
        }
        if want == std::cmp::Ordering::Equal {
            want = match (p, q) {
                (true, true) => x.ix().cmp(&y.ix()),
                (p, q) => p.cmp(&q),
            };
        }
    }
    check!(a.cmp(&b) == want);
    check!((a == b) == (want == std::cmp::Ordering::Equal));
}

pub fn table(v: &mut Table) {
    dynm!(v, "c07_huge", I => huge::<I>());
    all!(v, "c07_pairs", I => pairs::<I>());
    vari!(v, "c07_ancestors", I => ancestors::<I>());
    fams!(v, "c07_flavours", A => flavours::<A>());
}
