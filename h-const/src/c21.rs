//! C21: the set of types.
use crate::oracle::*;
use postcard_rpc::uniques::{cruncher, merge_nty_lists, type_chewer_nty, unique_types_nty_upper};
use postcard_schema::schema::{DataModelType as D, DataModelVariant as V, NamedType as T, NamedValue, NamedVariant};
use vp_rt::report::{Args, Report};

/// Trees live as long as the check that looks at them; the code under test keeps nothing.
unsafe fn st<X: ?Sized>(x: &X) -> &'static X {
    &*(x as *const X)
}

macro_rules! table {
    ($n:expr, $f:ident($a:expr), [$($k:literal)*]) => {
        match $n {
            $($k => { let (a, u) = $f::<$k>($a); Some((a.to_vec(), u)) })*
            _ => None,
        }
    };
}

fn run_chew(max: usize, t: &T) -> Option<(Vec<Option<&T>>, usize)> {
    table!(max, type_chewer_nty(t), [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 64 128 512 2048])
}

fn run_merge(max: usize, l: &[&[&'static T]]) -> Option<(Vec<Option<&'static T>>, usize)> {
    table!(max, merge_nty_lists(l), [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 64 128 300 700])
}

/// What `unique_types!` does with a type, at the array size it would use.
pub fn check(t: &T) -> Vec<&T> {
    let mut want = vec![];
    reach(t, &mut want);
    let at = || shape(t);
    let up = unique_types_nty_upper(t);
    assert!(up >= want.len(), "type list of {}: room for {up} of {} types (does not compile)", at(), want.len());
    // (above 36 the next larger of a few sizes stands for the exact one)
    let sz = if up <= 36 { up } else { [64, 128, 512, 2048].into_iter().find(|n| *n >= up).unwrap_or(2048) };
    let Some((arr, used)) = vp_rt::catch(|| run_chew(sz, t)).unwrap_or_else(|m| panic!("type list of {} does not compile: {m}", at())) else {
        panic!("harness: {up} types in one tree")
    };
    assert!(used <= up, "type list of {}: room for {up}, {used} needed (does not compile)", at());
    assert!(arr[used..].iter().all(|a| a.is_none()), "type list of {} does not compile", at());
    let got: Vec<&T> = arr[..used].iter().map(|a| a.expect("hole in the type list")).collect();
    same("type list", &at, &got, &want);
    got
}

/// What the list macros do with several lists.
fn merge(lists: &[&[&'static T]]) {
    let mut want: Vec<&T> = vec![];
    for t in lists.iter().flat_map(|l| l.iter()) {
        if !prim(t.ty) && !want.contains(t) {
            want.push(t);
        }
    }
    let at = || lists.iter().map(|l| format!("[{}]", l.iter().map(|t| shape(t)).collect::<Vec<_>>().join(", "))).collect::<String>();
    let n: usize = lists.iter().map(|l| l.len()).sum();
    let sz = if n <= 36 { n } else { [64, 128, 300, 700].into_iter().find(|m| *m >= n).unwrap_or(n) };
    let (arr, used) = vp_rt::catch(|| run_merge(sz, lists)).unwrap_or_else(|m| panic!("merged list of {} does not compile: {m}", at())).expect("size");
    assert!(arr[used..].iter().all(|a| a.is_none()), "merged list of {} does not compile", at());
    let got: Vec<&T> = arr[..used].iter().map(|a| a.expect("hole in the list")).collect();
    same("merged list", &at, &got, &want);
}

pub const UNARY: usize = 14;
pub const BINARY: usize = 12;

fn with<R>(name: &'static str, d: D, f: &mut dyn FnMut(&'static T) -> R) -> R {
    let t = T { name, ty: unsafe { st(&d) } };
    f(unsafe { st(&t) })
}

fn nv(name: &'static str, ty: &'static T) -> NamedValue {
    NamedValue { name, ty }
}

/// Every constructor with one type argument.
fn unary<R>(k: usize, a: &'static T, f: &mut dyn FnMut(&'static T) -> R) -> R {
    let va = nv("a", a);
    let fa = [unsafe { st(&va) }];
    let fa: &'static [&'static NamedValue] = unsafe { st(&fa[..]) };
    let one = [a];
    let one: &'static [&'static T] = unsafe { st(&one[..]) };
    let three = [a, a, a];
    let three: &'static [&'static T] = unsafe { st(&three[..]) };
    let en = |name, v: &[V], f: &mut dyn FnMut(&'static T) -> R| {
        let vs: Vec<NamedVariant> = v.iter().enumerate().map(|(i, v)| NamedVariant { name: ["X", "Y", "Z"][i], ty: unsafe { st(v) } }).collect();
        let rs: Vec<&'static NamedVariant> = vs.iter().map(|v| unsafe { st(v) }).collect();
        with(name, D::Enum(unsafe { st(&rs[..]) }), f)
    };
    match k {
        0 => with("Option<T>", D::Option(a), f),
        1 => with("Wrap", D::NewtypeStruct(a), f),
        2 => with("Vec<T>", D::Seq(a), f),
        3 => with("(T,)", D::Tuple(one), f),
        4 => with("[T; 3]", D::Tuple(three), f),
        5 => with("TS1", D::TupleStruct(one), f),
        6 => with("S1", D::Struct(fa), f),
        7 => en("EN", &[V::NewtypeVariant(a)], f),
        8 => en("EN", &[V::UnitVariant, V::NewtypeVariant(a), V::UnitVariant], f),
        9 => en("ET", &[V::TupleVariant(one)], f),
        10 => en("ES", &[V::StructVariant(fa)], f),
        11 => with("Map<T, T>", D::Map { key: a, val: a }, f),
        // same name and shape, other name inside
        12 => {
            let vb = nv("b", a);
            let fb = [unsafe { st(&vb) }];
            with("S1", D::Struct(unsafe { st(&fb[..]) }), f)
        }
        // same shape, other name
        13 => with("Wrap2", D::NewtypeStruct(a), f),
        _ => unreachable!(),
    }
}

/// Every constructor with two type arguments.
fn binary<R>(k: usize, a: &'static T, b: &'static T, f: &mut dyn FnMut(&'static T) -> R) -> R {
    let va = nv("a", a);
    let vb = nv("b", b);
    let (ra, rb) = unsafe { (st(&va), st(&vb)) };
    let (sa, sab) = ([ra], [ra, rb]);
    let sb = [rb];
    let (sa, sb, sab): (&'static [&'static NamedValue], &'static [&'static NamedValue], &'static [&'static NamedValue]) =
        unsafe { (st(&sa[..]), st(&sb[..]), st(&sab[..])) };
    let two = [a, b];
    let two: &'static [&'static T] = unsafe { st(&two[..]) };
    let (la, lb) = ([a], [b]);
    let (la, lb): (&'static [&'static T], &'static [&'static T]) = unsafe { (st(&la[..]), st(&lb[..])) };
    let en = |name, v: &[V], f: &mut dyn FnMut(&'static T) -> R| {
        let vs: Vec<NamedVariant> = v.iter().enumerate().map(|(i, v)| NamedVariant { name: ["X", "Y", "Z"][i], ty: unsafe { st(v) } }).collect();
        let rs: Vec<&'static NamedVariant> = vs.iter().map(|v| unsafe { st(v) }).collect();
        with(name, D::Enum(unsafe { st(&rs[..]) }), f)
    };
    match k {
        0 => with("(A, B)", D::Tuple(two), f),
        1 => with("TS2", D::TupleStruct(two), f),
        2 => with("Map<A, B>", D::Map { key: a, val: b }, f),
        3 => with("S2", D::Struct(sab), f),
        4 => en("E2", &[V::NewtypeVariant(a), V::NewtypeVariant(b)], f),
        5 => en("ET", &[V::TupleVariant(two)], f),
        6 => en("ES", &[V::StructVariant(sab)], f),
        7 => en("ETS", &[V::TupleVariant(la), V::StructVariant(sb)], f),
        8 => en("EST", &[V::StructVariant(sa), V::TupleVariant(lb)], f),
        9 => en("ENT", &[V::NewtypeVariant(a), V::TupleVariant(lb)], f),
        10 => en("ETN", &[V::TupleVariant(la), V::NewtypeVariant(b)], f),
        11 => en("ESN", &[V::StructVariant(sa), V::UnitVariant, V::NewtypeVariant(b)], f),
        _ => unreachable!(),
    }
}

pub const WIDE: usize = 8;
fn labelled(k: usize) -> bool {
    matches!(k, 2 | 3 | 5 | 6 | 7)
}

/// Every constructor with any number of arguments; kept.
fn wide(k: usize, name: &'static str, kids: &[&'static T], labels: &[&'static str]) -> &'static T {
    let kids: &'static [&'static T] = kids.to_vec().leak();
    let vals = || -> &'static [&'static NamedValue] {
        kids.iter().zip(labels).map(|(k, l)| &*Box::leak(Box::new(nv(l, k)))).collect::<Vec<_>>().leak()
    };
    let vars = |f: &dyn Fn(&'static T) -> V| -> &'static [&'static NamedVariant] {
        kids.iter()
            .zip(labels)
            .map(|(k, l)| &*Box::leak(Box::new(NamedVariant { name: l, ty: Box::leak(Box::new(f(k))) })))
            .collect::<Vec<_>>()
            .leak()
    };
    let one = |v: V| -> &'static [&'static NamedVariant] { vec![&*Box::leak(Box::new(NamedVariant { name: "X", ty: Box::leak(Box::new(v)) }))].leak() };
    let d = match k {
        0 => D::Tuple(kids),
        1 => D::TupleStruct(kids),
        2 => D::Struct(vals()),
        3 => D::Enum(vars(&|k| V::NewtypeVariant(k))),
        4 => D::Enum(one(V::TupleVariant(kids))),
        5 => D::Enum(one(V::StructVariant(vals()))),
        6 => D::Enum(vars(&|k| V::TupleVariant(vec![k, k].leak()))),
        _ => D::Enum(vars(&|k| V::StructVariant(vec![&*Box::leak(Box::new(nv("f", k)))].leak()))),
    };
    Box::leak(Box::new(T { name, ty: Box::leak(Box::new(d)) }))
}

/// A leaked copy.
fn keep(t: &'static T) -> &'static T {
    fn lk<X>(x: X) -> &'static X {
        Box::leak(Box::new(x))
    }
    fn vals(f: &[&'static NamedValue]) -> &'static [&'static NamedValue] {
        Box::leak(f.iter().map(|f| lk(NamedValue { name: f.name, ty: f.ty })).collect::<Vec<_>>().into_boxed_slice())
    }
    fn tys(l: &[&'static T]) -> &'static [&'static T] {
        Box::leak(l.to_vec().into_boxed_slice())
    }
    // (children are kept already)
    let d = match t.ty {
        D::Tuple(l) => D::Tuple(tys(l)),
        D::TupleStruct(l) => D::TupleStruct(tys(l)),
        D::Struct(f) => D::Struct(vals(f)),
        D::Enum(vs) => D::Enum(Box::leak(
            vs.iter()
                .map(|v| {
                    lk(NamedVariant {
                        name: v.name,
                        ty: lk(match v.ty {
                            V::TupleVariant(l) => V::TupleVariant(tys(l)),
                            V::StructVariant(f) => V::StructVariant(vals(f)),
                            o => *o,
                        }),
                    })
                })
                .collect::<Vec<_>>()
                .into_boxed_slice(),
        )),
        o => *o,
    };
    lk(T { name: t.name, ty: lk(d) })
}

fn leaves() -> Vec<&'static T> {
    let mk = |name, d| keep(unsafe { st(&T { name, ty: st(&d) }) });
    vec![mk("u8", D::U8), mk("String", D::String), mk("A", D::UnitStruct), mk("B", D::UnitStruct)]
}

fn next_level(l: &[&'static T], bin: bool) -> Vec<&'static T> {
    let mut v = vec![];
    for a in l {
        for k in 0..UNARY {
            unary(k, a, &mut |t| v.push(keep(t)));
        }
        if bin {
            for b in l {
                for k in 0..BINARY {
                    binary(k, a, b, &mut |t| v.push(keep(t)));
                }
            }
        }
    }
    v
}

pub fn run(a: Args) {
    let mut r = Report::new(a, "model_checking", "distinct type trees (all named types of the data model built from the constructors), distinct merges");
    let th = r.thorough();
    let l0 = leaves();
    let mut l1 = l0.clone();
    // empty composites
    for d in [D::Tuple(&[]), D::TupleStruct(&[]), D::Struct(&[]), D::Enum(&[]), D::Enum(&[&NamedVariant { name: "X", ty: &V::UnitVariant }])] {
        l1.push(keep(unsafe { st(&T { name: "Nil", ty: st(&d) }) }));
    }
    l1.extend(next_level(&l0, true));
    r.cases("every primitive, alone and inside every constructor", |c| {
        let ps: Vec<&'static T> = PRIMS.iter().map(|p| keep(unsafe { st(&T { name: p.0, ty: &p.1 }) })).collect();
        for p in &ps {
            assert!(check(p).is_empty());
            c.hit(c.n);
            for k in 0..UNARY {
                unary(k, p, &mut |t| {
                    check(t);
                    c.hit(c.n);
                });
            }
            for q in &ps {
                for k in 0..BINARY {
                    binary(k, p, q, &mut |t| {
                        check(t);
                        c.hit(c.n);
                    });
                }
                // two types that differ in one primitive only
                for k in 0..UNARY {
                    unary(k, p, &mut |t| {
                        unary(k, q, &mut |u| {
                            merge(&[&[t], &[u]]);
                            for n in [0, 3, 4, 5, 6] {
                                binary(n, t, u, &mut |w| {
                                    check(w);
                                });
                            }
                            c.hit(c.n);
                        })
                    });
                }
            }
        }
    });
    r.cases("all trees of depth 2", |c| {
        crate::par(c, l1.len(), |i| {
            let mut n = 0;
            let mut one = |t: &'static T| {
                check(t);
                n += 1;
            };
            one(l1[i]);
            for k in 0..UNARY {
                unary(k, l1[i], &mut one);
            }
            for b in &l1 {
                for k in 0..BINARY {
                    binary(k, l1[i], b, &mut one);
                }
            }
            n
        });
        c.sample(|| l1.iter().rev().take(5).map(|t| shape(t)).collect::<Vec<_>>().join("; "));
    });
    // depth 3 and 4
    let l2u: Vec<&'static T> = {
        let mut v = vec![];
        for a in &l1 {
            for k in 0..UNARY {
                unary(k, a, &mut |t| v.push(keep(t)));
            }
        }
        v
    };
    r.cases("depth 3: all constructors over a nested type and one of depth 1", |c| {
        crate::par(c, l2u.len(), |i| {
            let mut n = 0;
            let mut one = |t: &'static T| {
                check(t);
                n += 1;
            };
            for k in 0..UNARY {
                unary(k, l2u[i], &mut one);
            }
            for b in if th { &l1[..] } else { &l1[..40] } {
                for k in 0..BINARY {
                    binary(k, l2u[i], b, &mut one);
                    binary(k, b, l2u[i], &mut one);
                }
            }
            n
        });
    });
    r.cases("depth 4: chains of one-argument constructors", |c| {
        crate::par(c, l2u.len(), |i| {
            let mut n = 0;
            for k in 0..UNARY {
                unary(k, l2u[i], &mut |t| {
                    for k in 0..UNARY {
                        unary(k, t, &mut |t| {
                            check(t);
                            n += 1;
                            if th {
                                for k in 0..UNARY {
                                    unary(k, t, &mut |t| {
                                        check(t);
                                        n += 1;
                                    })
                                }
                            }
                        })
                    }
                })
            }
            n
        });
    });
    r.cases("merges of the lists of two and three types", |c| {
        let lists: Vec<Vec<&'static T>> = l1.iter().map(|t| check(t)).collect();
        crate::par(c, l1.len(), |i| {
            let mut n = 0;
            for j in 0..l1.len() {
                merge(&[&lists[i], &lists[j]]);
                merge(&[&[l1[i]], &[l1[j]]]);
                merge(&[&[l1[i], l1[j]], &lists[j], &[], &lists[i]]);
                n += 3;
            }
            n
        });
    });
    r.cases("wide types that differ in one place", |c| {
        let ls = leaves();
        let names: Vec<&'static str> = (0..70).map(|i| &*format!("n{i}").leak()).collect();
        for n in [3usize, 4, 5, 8, 9, 16, 17, 33, 64] {
            for k in 0..WIDE {
                // all children alike, or all different
                for distinct in [false, true] {
                    let kids: Vec<&'static T> = (0..n)
                        .map(|i| if distinct { keep(unsafe { st(&T { name: names[i], ty: st(&D::UnitStruct) }) }) } else { ls[2] })
                        .collect();
                    let base = wide(k, "Wide", &kids, &names[..n]);
                    check(base);
                    let inside = check(base);
                    for i in 0..n {
                        let mut other = kids.clone();
                        other[i] = ls[3];
                        let mut labels = names[..n].to_vec();
                        labels[i] = "other";
                        let mut v = vec![wide(k, "Wide", &other, &names[..n])];
                        if labelled(k) {
                            v.push(wide(k, "Wide", &kids, &labels));
                        }
                        other.pop();
                        v.push(wide(k, "Wide", &other, &names[..n - 1]));
                        for w in v {
                            let lists = [&inside[..], &check(w)[..]];
                            merge(&lists);
                            merge(&[&[base, w, base]]);
                            binary(0, base, w, &mut |t| {
                                check(t);
                            });
                            c.hit(c.n);
                        }
                    }
                }
            }
        }
    });
    r.cases("names of every length that differ in one character", |c| {
        for n in 0..=40usize {
            let name: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let mut others = vec![format!("{name}x")];
            for i in 0..n {
                let mut b = name.clone().into_bytes();
                b[i] = b'_';
                others.push(String::from_utf8(b).unwrap());
            }
            let name: &'static str = name.leak();
            let a = leaves()[2];
            for o in others {
                let o: &'static str = o.leak();
                for d in [D::UnitStruct, D::NewtypeStruct(a), D::Struct(&[])] {
                    let (x, y) = unsafe { (keep(st(&T { name, ty: st(&d) })), keep(st(&T { name: o, ty: st(&d) }))) };
                    merge(&[&[x], &[y], &[x]]);
                    for k in [0, 3, 4] {
                        binary(k, x, y, &mut |t| {
                            check(t);
                        });
                    }
                    c.hit(c.n);
                }
                // names of fields and variants
                for k in 0..WIDE {
                    if labelled(k) {
                        let (x, y) = (wide(k, "W", &[a], &[name]), wide(k, "W", &[a], &[o]));
                        merge(&[&[x], &[y], &[x]]);
                        c.hit(c.n);
                    }
                }
            }
        }
    });
    r.cases("merges of many lists", |c| {
        for n in [10usize, 20, 40, 64, 128, 300] {
            let all: Vec<&'static T> = (0..n).map(|i| keep(unsafe { st(&T { name: format!("t{i}").leak(), ty: st(&D::UnitStruct) }) })).collect();
            for cut in [1usize, 3, 7, n] {
                let lists: Vec<&[&'static T]> = all.chunks(cut).collect();
                merge(&lists);
                let twice: Vec<&[&'static T]> = all.chunks(cut).chain(all.chunks(cut + 1).rev()).collect();
                merge(&twice);
                c.hit(c.n);
            }
        }
    });
    r.cases("many distinct types side by side and inside one another", |c| {
        let leaf = |i: usize| -> &'static T { keep(unsafe { st(&T { name: format!("t{i}").leak(), ty: st(&D::UnitStruct) }) }) };
        let labels: Vec<&'static str> = (0..1200).map(|i| &*format!("l{i}").leak()).collect();
        for n in [9usize, 17, 33, 64, 127, 128, 200, 254, 255, 256, 257, 300, 600] {
            let kids: Vec<&'static T> = (0..n).map(leaf).collect();
            for k in 0..WIDE {
                check(wide(k, "Many", &kids, &labels[..n]));
                // each of them twice
                let twice: Vec<&'static T> = kids.iter().chain(kids.iter().rev()).copied().collect();
                if n <= 300 {
                    check(wide(k, "Many", &twice, &labels[..2 * n]));
                }
                c.hit(c.n);
            }
        }
        for n in [6usize, 9, 17, 33] {
            for k in 0..WIDE {
                let mut t = leaf(0);
                for i in 1..n {
                    t = wide(k, format!("d{i}").leak(), &[t], &labels[..1]);
                }
                // (two children per level double the count in the constructor that repeats its argument)
                if k != 6 || n <= 9 {
                    check(t);
                    c.hit(c.n);
                }
            }
        }
    });
    r.cases("shrinking to size", |c| {
        for t in &l1 {
            let mut v: Vec<Option<&'static T>> = check(t).into_iter().map(Some).collect();
            let n = v.len();
            let w = v.clone();
            for pad in 0..3 {
                let got: Vec<&'static T> = match n {
                    0 => cruncher::<0>(&v).to_vec(),
                    1 => cruncher::<1>(&v).to_vec(),
                    2 => cruncher::<2>(&v).to_vec(),
                    3 => cruncher::<3>(&v).to_vec(),
                    _ => unreachable!(),
                };
                assert_eq!(got, w.iter().map(|x| x.unwrap()).collect::<Vec<_>>());
                c.hit(c.n + pad);
                v.push(None);
            }
        }
    });
    r.cases("real declarations", |c| {
        let (ok, err) = crate::compiles("neg_ok");
        assert!(ok, "the control program does not compile: {err}");
        let (ok, err) = crate::compiles("real");
        assert!(ok, "an interface with ordinary types does not compile: {err}");
        let o = std::process::Command::new("/verif/target/release/real").output().expect("real");
        let s = String::from_utf8_lossy(&o.stdout);
        assert!(o.status.success(), "{s}{}", String::from_utf8_lossy(&o.stderr));
        for l in s.lines() {
            c.hit(c.n);
            c.sample(|| l.to_string());
        }
    });
    r.finish()
}
