//! C11: converting between storage flavours preserves the node.
use crate::huge;
use crate::ix::*;
use crate::sx::*;

fn from_fixed<A: Fam>() {
    let c = syms::<A::C>(A::CAP);
    let f = ok(A::F::build(&c));
    let s = A::f2s(f.clone());
    same_as_built(&s, &c, line!());
    check!(A::s2f(s) == f);
    let d = A::f2d(f.clone());
    same_as_built(&d, &c, line!());
    check!(ok(A::d2f(d.clone())) == f);
    same_as_built(&ok(A::d2s(d)), &c, line!());
    same_cells(&f, &c, line!());
}

/// fixed-depth indices whose list was shorter
fn from_padded<A: Fam>() {
    let n = choose(A::CAP);
    let c = syms::<A::C>(n);
    let p = padded(&c, A::CAP);
    let f = ok(A::F::build(&c));
    same_as_built(&A::f2s(f.clone()), &p, line!());
    same_as_built(&A::f2d(f), &p, line!());
}

fn from_static<A: Fam>() {
    let n = choose(A::CAP);
    let c = syms::<A::C>(n);
    let p = padded(&c, A::CAP);
    let s = ok(A::S::build(&c));
    let f = A::s2f(s.clone());
    same_as_built(&f, &p, line!());
    same_as_built(&A::f2s(f), &p, line!());
    let d = A::s2d(s.clone());
    same_as_built(&d, &c, line!());
    let t = ok(A::d2s(d));
    check!(t == s);
    same_as_built(&t, &c, line!());
    cell_obs(&t);
}

fn is_limit<T>(r: R<T>, cap: usize, line: u32) {
    match r {
        Err(Error::DepthLimitedExceeded { max_depth }) => assert(max_depth == cap, line),
        _ => assert(false, line),
    }
}

fn from_dynamic<A: Fam>() {
    let k = choose(A::CAP + 7);
    let n = if k <= A::CAP + 3 { k } else { [255, 256, 257, 256 + A::CAP][k - A::CAP - 4] };
    let c = syms::<A::C>(n);
    let d = ok(A::D::build(&c));
    if n > A::CAP {
        is_limit(A::d2f(d.clone()), A::CAP, line!());
        is_limit(A::d2s(d), A::CAP, line!());
        return;
    }
    let p = padded(&c, A::CAP);
    let f = ok(A::d2f(d.clone()));
    same_as_built(&f, &p, line!());
    same_as_built(&A::f2d(f), &p, line!());
    let s = ok(A::d2s(d.clone()));
    same_as_built(&s, &c, line!());
    check!(A::s2d(s) == d);
    cell_obs(&d);
}

/// values that were changed or derived before they are converted
fn derived<A: Fam>() {
    let n = choose(A::CAP.min(9));
    let c = syms::<A::C>(n);
    let k = choose(n);
    let s = ok(A::S::build(&c)).with_depth(k).unwrap();
    let d = ok(A::D::build(&c)).with_depth(k).unwrap();
    let p = padded(&c[..k], A::CAP);
    same_as_built(&A::s2d(s.clone()), &c[..k], line!());
    same_as_built(&A::s2f(s), &p, line!());
    same_as_built(&ok(A::d2s(d.clone())), &c[..k], line!());
    same_as_built(&ok(A::d2f(d)), &p, line!());
    let z = A::D::zeros(k).unwrap();
    same_as_built(&ok(A::d2s(z.clone())), &padded(&[], k), line!());
    same_as_built(&ok(A::d2f(z)), &padded(&[], A::CAP), line!());
}

/// dynamic indices of many hundred levels never fit, also where a narrow counter of levels would say so
fn too_deep<A: Fam>() {
    let base = choose_of(&[256, 512, 65536, 131072]);
    let d = base + choose_of(&[0, 1, 2, 3, A::CAP / 2, A::CAP - 1, A::CAP]);
    let mut i = huge::some(A::D::zeros(d));
    for l in [0, 1, d / 2, d - 1] {
        i.set(l, A::C::sym());
    }
    is_limit(A::d2f(i.clone()), A::CAP, line!());
    is_limit(A::d2s(i), A::CAP, line!());
}

pub fn table(v: &mut Table) {
    fams!(v, "c11_fixed", A => from_fixed::<A>());
    fams!(v, "c11_padded", A => from_padded::<A>());
    fams!(v, "c11_static", A => from_static::<A>());
    fams!(v, "c11_dynamic", A => from_dynamic::<A>());
    fams!(v, "c11_toodeep", A => too_deep::<A>());
    fams!(v, "c11_derived", A => derived::<A>());
}
