//! C02: capacity limits are enforced exactly.
use crate::huge;
use crate::ix::*;
use crate::sx::*;

/// the outcome of an operation that asks an index type with capacity I::CAP for `want` levels
fn outcome<I: Ix>(r: R<I>, want: usize, line: u32) {
    match r {
        Ok(i) => {
            assert(want <= I::CAP, line);
            let d = if I::KIND == Kind::Fixed { I::CAP } else { want };
            assert(i.depth() == d, line);
        }
        Err(e) => {
            assert(want > I::CAP, line);
            match e {
                Error::DepthLimitedExceeded { max_depth } => assert(max_depth == I::CAP, line),
                _ => assert(false, line),
            }
        }
    }
}

/// list lengths: all up to just past the capacity, then around the places where a narrow counter would wrap
fn lens<I: Ix>() -> usize {
    if I::KIND == Kind::Dynamic {
        return choose_of(&[0, 1, 2, 3, 4, 5, 8, 9, 16, 21, 22, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 513]);
    }
    let k = choose(I::CAP + 12);
    let far = [255, 256, 257, 256 + I::CAP, 257 + I::CAP, 512, 65536, 65537, 65536 + I::CAP];
    if k <= I::CAP + 3 {
        k
    } else {
        far[k - I::CAP - 4]
    }
}

fn slices<I: Ix>() {
    let n = lens::<I>();
    let mut c = vec![I::C::mk(!0); n];
    // the cells within the capacity (and a few past it) are symbolic
    let m = if I::KIND == Kind::Dynamic { n } else { n.min(I::CAP + 3) };
    for k in 0..m {
        c[k] = I::C::sym();
    }
    let r = I::build(&c);
    if let Ok(i) = &r {
        check!(n <= I::CAP);
        for l in 0..n {
            check!(i.get(l).ix() == c[l].ix());
        }
    }
    outcome(r, n, line!());
}

fn array<I: Ix, const N: usize>() {
    let c: [I::C; N] = std::array::from_fn(|_| I::C::sym());
    outcome(I::build_array(c), N, line!());
}
fn arrays<I: Ix>() {
    match choose(22) {
        0 => array::<I, 2>(),
        1 => array::<I, 3>(),
        2 => array::<I, 4>(),
        3 => array::<I, 5>(),
        4 => array::<I, 6>(),
        5 => array::<I, 8>(),
        6 => array::<I, 9>(),
        7 => array::<I, 10>(),
        8 => array::<I, 11>(),
        9 => array::<I, 16>(),
        10 => array::<I, 17>(),
        11 => array::<I, 21>(),
        12 => array::<I, 22>(),
        13 => array::<I, 32>(),
        14 => array::<I, 33>(),
        15 => array::<I, 42>(),
        16 => array::<I, 43>(),
        17 => array::<I, 64>(),
        18 => array::<I, 65>(),
        19 => array::<I, 66>(),
        20 => array::<I, 256>(),
        21 => array::<I, 257>(),
        _ => array::<I, 258>(),
    }
}

/// zeroed(depth) of a static index, for every one-byte depth
fn zeroed<I: VarIx>() {
    if I::KIND == Kind::Static {
        let d = sym(8) as usize;
        let z = I::zeros(d);
        check!(z.is_some() == (d <= I::CAP));
        if let Some(i) = z {
            check!(i.depth() == d);
        }
    } else {
        let d = choose_of(&[0, 1, 2, 3, 4, 5, 63, 64, 65, 254, 255, 256, 257, 1000, 65536]);
        let i = I::zeros(d).unwrap();
        check!(i.depth() == d);
    }
}

fn grid<I: Ix>() {
    let ord = choose(I::NORD - 1);
    let co = [sym(64) as usize, sym(64) as usize, sym(64) as usize];
    if I::KIND != Kind::Static {
        // fixed-depth types have no depth to ask for; dynamic ones take up to half a machine word and refuse more
        if I::KIND == Kind::Dynamic && flag() {
            let d = sym(64) as usize;
            assume(d > I::GMAX);
            must_panic(&mut 0u8, line!(), |_| {
                let _ = I::from_grid(co, d, ord);
            });
            return;
        }
        let d = if I::KIND == Kind::Dynamic { choose(I::GMAX) } else { I::CAP };
        outcome(I::from_grid(co, d, ord), d, line!());
        return;
    }
    if flag() {
        let d = choose(I::CAP);
        outcome(I::from_grid(co, d, ord), d, line!());
    } else {
        let d = sym(64) as usize;
        assume(d > I::CAP);
        outcome(I::from_grid(co, d, ord), d, line!());
    }
}

fn descendant<I: VarIx>() {
    let (i, c, n);
    if I::KIND == Kind::Dynamic {
        let d = choose_of(&[0, 1, 3, 4, 5, 8, 64, 254, 255, 256]);
        (i, c) = any_index_of::<I>(d);
        n = choose_of(&[0, 1, 2, 3, 5, 8, 64, 255, 256]);
    } else {
        // the current depth, and what is added: up to the capacity, just past it, and far past it
        let d = if tier() == 0 {
            choose_of(&[0, 1, 2, I::CAP / 2, I::CAP - 1, I::CAP])
        } else {
            choose(I::CAP)
        };
        (i, c) = any_index_of::<I>(d);
        let room = I::CAP - d;
        n = choose_of(&[
            0,
            room / 2,
            room.saturating_sub(1),
            room,
            room + 1,
            room + 2,
            255,
            256 - d,
            256,
            257,
            256 + room,
            512,
            65536 - d,
            65536,
            65536 + room,
        ]);
    }
    let e = vec![I::C::sym(); n];
    let r = i.desc(&e);
    let fits = I::KIND == Kind::Dynamic || c.len() + n <= I::CAP;
    check!(r.is_some() == fits);
    if let Some(x) = r {
        check!(x.depth() == c.len() + n);
    }
    check!(i.depth() == c.len());
}

fn child<I: VarIx>() {
    let (i, c) = any_index::<I>();
    let r = i.kid(I::C::sym());
    check!(r.is_some() == (c.len() < I::CAP));
    if let Some(x) = r {
        check!(x.depth() == c.len() + 1);
    }
}

fn convert<A: Fam>() {
    let k = choose(A::CAP + 8);
    let far = [128, 255, 256, 256 + A::CAP, 300];
    let d = if k <= A::CAP + 3 { k } else { far[k - A::CAP - 4] };
    let (i, _) = any_index_of::<A::D>(d);
    outcome(A::d2f(i.clone()), d, line!());
    outcome(A::d2s(i), d, line!());
}

/// dynamic indices of many thousand levels are never refused, and never fit anything else
fn huge<A: Fam>() {
    let d = if flag() {
        choose_of(huge::HUGE) - choose(1)
    } else {
        choose_of(&[256, 512, 65536]) + choose_of(&[0, 1, 2, 3, A::CAP - 1, A::CAP])
    };
    let (i, _) = huge::huge::<A::D>(d);
    check!(i.depth() == d);
    if flag() {
        outcome(A::d2f(i), d, line!())
    } else {
        outcome(A::d2s(i), d, line!())
    }
}

/// dynamic indices of many thousand levels grow without limit
fn grow<I: VarIx>() {
    let d = choose_of(huge::HUGE) - choose(1);
    let (i, _) = huge::huge::<I>(d);
    if flag() {
        let r = i.kid(I::C::sym());
        check!(r.is_some());
        check!(huge::some(r).depth() == d + 1);
    } else {
        let n = choose_of(&[0, 1, 2, 3, 9, 257]);
        let r = i.desc(&syms::<I::C>(n));
        check!(r.is_some());
        check!(huge::some(r).depth() == d + n);
    }
}

fn limits<I: Ix>(advertised: Option<usize>) {
    // (a symbolic value so that the harness has a query of its own)
    let x = sym(8);
    observe(x);
    if I::KIND == Kind::Dynamic {
        check!(I::max_depth().is_none());
    } else {
        check!(I::max_depth() == Some(I::CAP));
    }
    if let Some(a) = advertised {
        check!(a == I::CAP);
    }
}

pub fn table(v: &mut Table) {
    all!(v, "c02_slices", I => slices::<I>());
    all!(v, "c02_arrays", I => arrays::<I>());
    vari!(v, "c02_zeroed", I => zeroed::<I>());
    all!(v, "c02_grid", I => grid::<I>());
    vari!(v, "c02_descendant", I => descendant::<I>());
    vari!(v, "c02_child", I => child::<I>());
    fams!(v, "c02_convert", A => convert::<A>());
    fams!(v, "c02_huge", A => huge::<A>());
    dynm!(v, "c02_huge_grow", I => grow::<I>());
    all!(v, "c02_limits", I => limits::<I>(None));
    on!(v, "c02_consts", I => limits::<I>(Some(I::MAX_LEVELS));
        "f3_8": F3<u8>, "f3_16": F3<u16>, "f3_32": F3<u32>, "f3_64": F3<u64>, "f3_128": F3<u128>, "f3_us": F3<usize>,
        "s3_8": S3<u8>, "s3_16": S3<u16>, "s3_32": S3<u32>, "s3_64": S3<u64>, "s3_128": S3<u128>, "s3_us": S3<usize>);
}
