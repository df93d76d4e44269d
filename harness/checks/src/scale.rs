//! Size and wear: the same questions as in `seq`, asked of big states, long requests, long names
//! and after many repetitions (C01-C08).  What is enumerated is the size, the shape and what is
//! done to it where; sizes climb past the usual thresholds (2^8, 2^10, 2^12, 2^14, 2^16, 1000, 10000).
use crate::engine::*;
use crate::model::*;
use crate::seq::*;
use vstd::rt::{self, RngMode};

type Make = fn(usize) -> Op;

fn int(n: usize) -> Val {
    Val::Int(n as i64 + 7)
}

/// A statement on both sides, without keeping the reference's state for a permitted refusal.
fn go(p: &mut Pair, r: &mut Run, op: &Op) {
    p.now();
    let want = p.m.apply(op);
    debug_assert!(!matches!(want, Rep::Either(_)));
    let got = p.sys.op(op);
    r.transitions(1);
    match got {
        Ok(g) if want.is(&g) && !p.books => {}
        got => p.judge(r, &format!("{:?}", op).chars().take(200).collect::<String>(), &want, got, None),
    }
}

/// Where in a run of `n` things something happens.
fn spots(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}

/// Thousands of keys.
pub fn crowd(quick: bool, tick: bool, books: bool) -> Lane {
    let sizes = if quick { vec![257, 1100, 4500, 12_000] } else { vec![100, 257, 600, 1100, 2100, 4500, 9000, 12_000, 20_000, 70_000] };
    Lane::new("thousands of keys", Budget::free(), move |r| {
        let n = *pick_from(&sizes);
        let pattern = pick(3);
        let mut p = Pair::new();
        let names: Vec<String> = (0..n).map(|i| format!("key{}", i)).collect();
        for (i, k) in names.iter().enumerate() {
            let life = match pattern {
                0 => None,
                1 => Some(1000),
                _ => if i % 2 == 0 { Some(if tick { 2 } else { 1000 }) } else { None },
            };
            go(&mut p, r, &Op::Set(k.clone(), int(i), life));
            if p.dead {
                return;
            }
        }
        let k = names[*pick_from(&spots(n))].clone();
        match pick(6) {
            0 => go(&mut p, r, &Op::Delete(k)),
            1 => go(&mut p, r, &Op::Set(k, int(1), None)),
            2 => go(&mut p, r, &Op::Set(k, int(2), Some(5000))),
            3 => go(&mut p, r, &Op::SetNew("another".into(), int(3), None)),
            4 => go(&mut p, r, &Op::Update(k, int(4), Some(5000))),
            _ => {
                if tick {
                    p.tick(3 * TICK);
                }
                let m = p.sys.tracked().max(1);
                rt::set_rng(RngMode::Pick(*pick_from(&[0, m / 2, m - 1]), m));
                p.sweep_now(r);
            }
        }
        if p.dead {
            return;
        }
        if books {
            p.check_books(r, "all that");
        }
        for k in &names {
            go(&mut p, r, &Op::TryGet(k.clone()));
            if p.dead {
                return;
            }
        }
        for k in &names {
            go(&mut p, r, &Op::Life(k.clone()));
            go(&mut p, r, &Op::Exists(k.clone()));
            if p.dead {
                return;
            }
        }
        if books {
            p.check_books(r, "all reads");
        }
        r.state(p.m.hash());
        r.outcome(&format!("{} keys", n));
    })
}

/// Many expiring keys of which most go away again, in some order and some way; then the rest is
/// used, more come, and everything runs out.
pub fn thinned(quick: bool) -> Lane {
    let sizes = if quick { vec![20, 70, 140, 300, 700] } else { vec![12, 20, 40, 70, 140, 270, 300, 520, 700, 1100, 2100] };
    Lane::new("most of many keys go away", Budget::free(), move |r| {
        let n = *pick_from(&sizes);
        let pattern = pick(3);
        let order = pick(4);
        let way = pick(5);
        let left = *pick_from(&[0, 1, n / 20 + 2, n / 5, n / 2]);
        let mut p = Pair::new();
        let names: Vec<String> = (0..n).map(|i| format!("key{}", i)).collect();
        for (i, k) in names.iter().enumerate() {
            let life = match pattern {
                0 => Some(2),
                1 => if i % 2 == 0 { Some(2) } else { None },
                _ => Some(if i % 2 == 0 { 2 } else { 1000 }),
            };
            go(&mut p, r, &Op::Set(k.clone(), int(i), life));
        }
        let mut going: Vec<usize> = (0..n).collect();
        match order {
            0 => {}
            1 => going.reverse(),
            2 => going.rotate_left(n / 2),
            _ => going.sort_by_key(|i| (i % 3, *i)),
        }
        let kept = going.split_off(n - left);
        for i in going {
            let k = names[i].clone();
            match way {
                0 => go(&mut p, r, &Op::Delete(k)),
                1 => go(&mut p, r, &Op::Set(k, int(1), None)),
                2 => go(&mut p, r, &Op::SetLife(k, None)),
                3 => go(&mut p, r, &Op::Update(k, int(1), None)),
                _ => {
                    // leave it to the sweeper
                    go(&mut p, r, &Op::SetLife(k, Some(1)));
                }
            }
            if p.dead {
                return;
            }
        }
        if way == 4 {
            p.tick(1_500_000_000);
            p.drain(r);
        }
        p.check_books(r, "most went away");
        for (j, i) in kept.iter().enumerate() {
            let k = names[*i].clone();
            match j % 4 {
                0 => go(&mut p, r, &Op::Delete(k)),
                1 => go(&mut p, r, &Op::Set(k, int(2), None)),
                2 => go(&mut p, r, &Op::TryGet(k)),
                _ => {}
            }
            if p.dead {
                return;
            }
        }
        for i in 0..5 {
            go(&mut p, r, &Op::Set(format!("more{}", i), int(i), Some(1 + i as u64)));
        }
        p.check_books(r, "more came");
        p.tick(3 * TICK);
        p.drain(r);
        p.tick(2_000_000_000_000);
        p.drain(r);
        if p.dead {
            return;
        }
        let some: Vec<String> = names.iter().step_by(n / 10 + 1).cloned().collect();
        p.readback(r, &some);
        r.state(p.m.hash());
        r.outcome(&format!("{} keys", n));
    })
}

/// Names of every length that agree everywhere but in one place.
pub fn long_names(quick: bool) -> Lane {
    let sizes = if quick { vec![17, 33, 65, 129, 257, 513, 1025, 4097, 70_000] } else { vec![3, 8, 9, 16, 17, 24, 32, 33, 64, 65, 100, 128, 129, 200, 255, 256, 257, 512, 513, 1000, 1025, 2049, 4097, 8193, 16385, 33_000, 70_000, 1_000_001] };
    Lane::new("long names", Budget::free(), move |r| {
        let n = *pick_from(&sizes);
        let at = *pick_from(&spots(n));
        let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 7) as u8).collect();
        let mut other = base.clone();
        other[at] = b'x';
        let mut other2 = base.clone();
        other2.push(b'q');
        let names: Vec<String> = [base, other, other2].into_iter().map(|x| String::from_utf8(x).unwrap()).collect();
        let mut p = Pair::new();
        p.sys.text = flag();
        p.op(r, &Op::Set(names[0].clone(), int(0), None));
        p.op(r, &Op::Exists(names[1].clone()));
        match pick(3) {
            0 => p.op(r, &Op::Set(names[1].clone(), int(1), Some(9))),
            1 => p.op(r, &Op::SetNew(names[1].clone(), int(1), None)),
            _ => p.op(r, &Op::Update(names[1].clone(), int(1), None)),
        }
        p.op(r, &Op::SetNew(names[2].clone(), int(2), None));
        if flag() {
            p.op(r, &Op::Delete(names[pick(3)].clone()));
        }
        for k in &names {
            p.op(r, &Op::TryGet(k.clone()));
            p.op(r, &Op::Exists(k.clone()));
        }
        r.state(p.m.hash());
        r.outcome(&format!("{} characters", n));
    })
}

/// Values of every size.
pub fn big_values(quick: bool) -> Lane {
    let sizes = if quick { vec![257, 1025, 5000, 66_000, 1_100_000] } else { vec![100, 257, 1025, 4097, 5000, 10_001, 33_000, 66_000, 140_000, 300_000, 1_100_000, 5_000_000] };
    Lane::new("big values", Budget::free(), move |r| {
        let n = *pick_from(&sizes);
        let k = "k".to_string();
        let m = (n / 10).min(60_000);
        let v = match pick(4) {
            0 => Val::Str("y".repeat(n)),
            1 => Val::Vec(Ct::Int, (0..m).map(int).collect()),
            2 => Val::Vec(Ct::Str, vec![Val::Str("z".repeat(n)), Val::Str("z".repeat(n + 1))]),
            _ => Val::Map(Kt::Str, Ct::Float, (0..m).map(|i| (Val::Str(format!("f{}", i)), f(i as f32))).collect()),
        };
        let mut p = Pair::new();
        p.sys.text = flag();
        match pick(3) {
            0 => go(&mut p, r, &Op::Set(k.clone(), v, None)),
            1 => go(&mut p, r, &Op::SetNew(k.clone(), v, Some(9))),
            _ => {
                go(&mut p, r, &Op::Set(k.clone(), int(0), None));
                go(&mut p, r, &Op::Update(k.clone(), v, None));
            }
        }
        go(&mut p, r, &Op::TryGet(k.clone()));
        go(&mut p, r, &Op::Type(k.clone()));
        r.state(hash64(&n));
        r.outcome(&format!("size {}", n));
    })
}

/// What a cycle consists of.
#[derive(Clone, Copy)]
pub enum Beat {
    S(Make),
    Tick,
    Sweep,
}

/// Cycles of statements repeated many times.
pub fn wear(name: &str, quick: bool, pre: Vec<Op>, beats: Vec<Beat>, len: usize, rounds: Vec<usize>, books: bool, text: bool) -> Lane {
    let _ = quick;
    Lane::new(name, Budget::free(), move |r| {
        let rounds = *pick_from(&rounds);
        let n = 1 + pick(len);
        let cycle: Vec<Beat> = (0..n).map(|_| *pick_from(&beats)).collect();
        let mut p = Pair::new();
        p.sys.text = text;
        for o in &pre {
            p.op(r, o);
        }
        for i in 0..rounds {
            for b in &cycle {
                match b {
                    Beat::S(m) => go(&mut p, r, &m(i)),
                    Beat::Tick => p.tick(TICK),
                    Beat::Sweep => {
                        rt::set_rng(RngMode::Rotate(i as u64));
                        p.sweep_now(r);
                    }
                }
                if p.dead {
                    return;
                }
            }
        }
        if books {
            p.check_books(r, "all rounds");
        }
        let keys: Vec<String> = p.m.map.keys().cloned().chain(["a".into(), "b".into()]).collect();
        p.readback(r, &keys);
        r.state(p.m.hash());
        if books && !p.dead && p.m.map.len() < 100 {
            p.books = true;
            p.drain(r);
        }
        r.outcome(&format!("{} live", p.m.live_count()));
    })
}

fn a() -> String {
    "a".into()
}
fn b() -> String {
    "b".into()
}
pub fn key_beats() -> Vec<Beat> {
    use Beat::S;
    vec![
        S(|n| Op::Set(a(), int(n), None)),
        S(|n| Op::Set(a(), int(n), Some(1))),
        S(|n| Op::Set(b(), int(n), Some(3))),
        S(|n| Op::SetNew(b(), int(n), None)),
        S(|n| Op::Update(a(), int(n), Some(2))),
        S(|_| Op::Delete(a())),
        S(|_| Op::Delete(b())),
        S(|_| Op::Get(a())),
        S(|_| Op::TryGet(b())),
        S(|_| Op::SetLife(b(), Some(2))),
        S(|n| Op::Set(format!("k{}", n), int(n), None)),
        S(|_| Op::Get("missing".into())),
    ]
}
pub fn timed_beats() -> Vec<Beat> {
    let mut v = key_beats();
    v.push(Beat::Tick);
    v.push(Beat::Sweep);
    v.push(Beat::S(|n| Op::Set(format!("t{}", n % 50), int(n), Some(2))));
    v
}

fn vec_beats() -> Vec<Beat> {
    use Beat::S;
    vec![
        S(|n| Op::VPush(a(), int(n))),
        S(|_| Op::VPop(a())),
        S(|n| Op::VSet(a(), n / 2, int(n + 1))),
        S(|n| Op::VGet(a(), n / 3)),
        S(|n| Op::VGet(a(), n)),
        S(|_| Op::VLen(a())),
        S(|_| Op::VPush(a(), Val::Null)),
    ]
}
fn map_beats() -> Vec<Beat> {
    use Beat::S;
    vec![
        S(|n| Op::MSet(a(), int(n), int(n + 1))),
        S(|n| Op::MSet(a(), int(n % 5), int(n + 2))),
        S(|n| Op::MDel(a(), int(n / 2))),
        S(|n| Op::MGet(a(), int(n / 3))),
        S(|n| Op::MEx(a(), int(n))),
        S(|_| Op::MLen(a())),
        S(|_| Op::MSet(a(), Val::Null, int(0))),
    ]
}

pub fn c01(q: bool) -> Vec<Lane> {
    let rounds = if q { vec![40, 1300] } else { vec![40, 300, 1300, 12_000] };
    vec![
        crowd(q, false, false),
        long_names(q),
        big_values(q),
        wear("many repetitions", q, vec![], key_beats(), 2, rounds.clone(), false, false),
        wear("many repetitions as query text", q, vec![], key_beats(), 2, if q { vec![300] } else { rounds }, false, true),
    ]
}
pub fn c02(q: bool) -> Vec<Lane> {
    let rounds = if q { vec![40, 700] } else { vec![40, 300, 1300, 6000] };
    vec![crowd(q, true, false), wear("many repetitions", q, vec![], timed_beats(), 2, rounds, false, false)]
}
pub fn c03(q: bool) -> Vec<Lane> {
    let rounds = if q { vec![40, 700] } else { vec![40, 300, 1300, 6000] };
    vec![wear("many repetitions", q, vec![], timed_beats(), 2, rounds, false, false)]
}
pub fn c04(q: bool) -> Vec<Lane> {
    let rounds = if q { vec![40, 400] } else { vec![40, 300, 700] };
    vec![crowd(q, true, true), thinned(q), wear("many repetitions", q, vec![], timed_beats(), 2, rounds, true, false)]
}
pub fn c05(q: bool) -> Vec<Lane> {
    let rounds = if q { vec![300, 3000] } else { vec![300, 3000, 12_000] };
    let sizes = if q { vec![1100, 4500, 17_000] } else { vec![600, 1100, 2100, 4500, 9000, 17_000, 33_000, 70_000, 140_000] };
    let pre = vec![Op::Set(a(), Val::Vec(Ct::Int, vec![]), None)];
    vec![
        wear("many repetitions", q, pre, vec_beats(), 3, rounds, false, false),
        Lane::new("huge vectors", Budget::free(), move |r| {
            let n = *pick_from(&sizes);
            let t = *pick_from(&CTS);
            let mut p = Pair::new();
            if flag() {
                go(&mut p, r, &Op::Set(a(), Val::Vec(t, (0..n).map(|i| t.sample(i)).collect()), None));
            } else {
                go(&mut p, r, &Op::Set(a(), Val::Vec(t, vec![]), None));
                for i in 0..n {
                    go(&mut p, r, &Op::VPush(a(), t.sample(i)));
                    if p.dead {
                        return;
                    }
                }
            }
            go(&mut p, r, &Op::VLen(a()));
            let at = *pick_from(&[0, n / 2, n - 1, n, n + 1]);
            match pick(3) {
                0 => go(&mut p, r, &Op::VSet(a(), at, t.sample(777))),
                1 => go(&mut p, r, &Op::VPush(a(), t.sample(778))),
                _ => go(&mut p, r, &Op::VPop(a())),
            }
            for i in (0..n).step_by(n / 8).chain([n - 1, n, n + 1]) {
                go(&mut p, r, &Op::VGet(a(), i));
            }
            go(&mut p, r, &Op::TryGet(a()));
            for _ in 0..n + 2 {
                go(&mut p, r, &Op::VPop(a()));
                if p.dead {
                    return;
                }
            }
            go(&mut p, r, &Op::VLen(a()));
            r.state(hash64(&(n, at, format!("{:?}", t))));
            r.outcome(&format!("{:?} x {}", t, n));
        }),
    ]
}
pub fn c06(q: bool) -> Vec<Lane> {
    let rounds = if q { vec![300, 2600] } else { vec![300, 2600, 12_000] };
    let sizes = if q { vec![1100, 4500, 12_000] } else { vec![600, 1100, 2100, 4500, 9000, 17_000, 33_000, 70_000] };
    let pre = vec![Op::Set(a(), Val::Map(Kt::Int, Ct::Int, [].into()), None)];
    vec![
        wear("many repetitions", q, pre, map_beats(), 3, rounds, false, false),
        Lane::new("huge maps", Budget::free(), move |r| {
            let n = *pick_from(&sizes);
            let kt = *pick_from(&KTS);
            let t = *pick_from(&[Ct::Int, Ct::Str]);
            let mut p = Pair::new();
            if flag() {
                go(&mut p, r, &Op::Set(a(), Val::Map(kt, t, (0..n).map(|i| (kt.sample(i), t.sample(i))).collect()), None));
            } else {
                go(&mut p, r, &Op::Set(a(), Val::Map(kt, t, [].into()), None));
                for i in 0..n {
                    go(&mut p, r, &Op::MSet(a(), kt.sample(i), t.sample(i)));
                    if p.dead {
                        return;
                    }
                }
            }
            go(&mut p, r, &Op::MLen(a()));
            let at = kt.sample(*pick_from(&[0, n / 2, n - 1, n]));
            match pick(3) {
                0 => go(&mut p, r, &Op::MSet(a(), at, t.sample(777))),
                1 => go(&mut p, r, &Op::MDel(a(), at)),
                _ => go(&mut p, r, &Op::MEx(a(), at)),
            }
            go(&mut p, r, &Op::TryGet(a()));
            for i in (0..n).step_by(n / 8).chain([n - 1, n]) {
                go(&mut p, r, &Op::MGet(a(), kt.sample(i)));
                go(&mut p, r, &Op::MEx(a(), kt.sample(i)));
                if p.dead {
                    return;
                }
            }
            for i in 0..n + 1 {
                go(&mut p, r, &Op::MDel(a(), kt.sample(i)));
                if p.dead {
                    return;
                }
            }
            go(&mut p, r, &Op::MLen(a()));
            r.state(hash64(&(n, format!("{:?}{:?}", kt, t))));
            r.outcome(&format!("{:?}->{:?} x {}", kt, t, n));
        }),
    ]
}

fn filler(i: usize, mode: usize) -> Op {
    match mode {
        0 => Op::Exists("a".into()),
        1 => Op::TryGet("v".into()),
        _ => match i % 3 {
            0 => Op::VPush("v".into(), int(i)),
            1 => Op::Set("a".into(), int(i), None),
            _ => Op::VLen("v".into()),
        },
    }
}

/// Very long statement lists with one interesting statement.
pub fn c07(q: bool) -> Vec<Lane> {
    let sizes = if q { vec![257, 520, 1100, 4500, 20_000] } else { vec![100, 257, 520, 1100, 2100, 4500, 9000, 20_000, 70_000] };
    vec![
        Lane::new("thousands of statements", Budget::free(), move |r| {
            let n = *pick_from(&sizes);
            let at = *pick_from(&spots(n));
            let mode = pick(2) * 2;
            let odd = pick_from(&[
                Op::Get("missing".into()),
                Op::Shutdown,
                Op::VPush("a".into(), Val::Null),
                Op::Delete("v".into()),
                Op::VGet("v".into(), 1 << 40),
                Op::Set("n".into(), int(5), Some(4)),
                Op::Null,
            ])
            .clone();
            let mut p = Pair::new();
            preload(r, &mut p, 1);
            p.sys.text = flag();
            let mut ops: Vec<Op> = (0..n).map(|i| filler(i, mode)).collect();
            ops[at] = odd;
            request(r, &mut p, &ops, Level::Admin);
        }),
        Lane::new("many requests", Budget::free(), move |r| {
            // cycles of requests, over and over
            let rounds = *pick_from(if q { &[300usize, 1100][..] } else { &[300usize, 1100, 9000][..] });
            let menu: [fn(usize) -> Vec<Op>; 6] = [
                |n| vec![Op::Set("a".into(), int(n), None), Op::Get("a".into())],
                |n| vec![Op::Set("n".into(), int(n), None), Op::Get("missing".into()), Op::Delete("n".into())],
                |_| vec![],
                |n| vec![Op::VPush("v".into(), int(n)), Op::VPop("v".into()), Op::VPush("v".into(), int(n + 1))],
                |n| vec![Op::MSet("m".into(), s("x"), int(n)), Op::Shutdown, Op::Delete("m".into())],
                |_| vec![Op::Get("a".into()), Op::VGet("a".into(), 0)],
            ];
            let cycle: Vec<usize> = (0..2).map(|_| pick(menu.len())).collect();
            let mut p = Pair::new();
            preload(r, &mut p, 1);
            for i in 0..rounds {
                for c in &cycle {
                    let ops = menu[*c](i);
                    p.now();
                    let want = p.m.request(&ops, Level::Admin);
                    let got = p.sys.request(&ops, Level::Admin);
                    r.transitions(1);
                    match got {
                        Ok(g) if want.is(&g) => {}
                        got => p.judge(r, &format!("{:?} in round {}", ops, i), &want, got, None),
                    }
                    if p.dead {
                        return;
                    }
                }
            }
            request(r, &mut p, &[Op::Get("a".into())], Level::Admin);
        }),
    ]
}

pub fn c08(q: bool) -> Vec<Lane> {
    let sizes = if q { vec![65, 110, 257, 520, 1100, 9000] } else { vec![65, 110, 130, 257, 520, 1100, 2100, 4500, 9000, 20_000, 70_000] };
    vec![
        Lane::new("a privileged statement among thousands", Budget::free(), move |r| {
            let level = *pick_from(&LEVELS);
            let n = *pick_from(&sizes);
            let at = *pick_from(&spots(n));
            let mode = pick(2);
            let one = pick_from(&[
                Op::Set("a".into(), Val::Int(77), None),
                Op::SetNew("n".into(), Val::Int(78), Some(3)),
                Op::Update("a".into(), Val::Int(79), None),
                Op::SetLife("a".into(), Some(5)),
                Op::Delete("a".into()),
                Op::VSet("v".into(), 0, Val::Int(80)),
                Op::VPush("v".into(), Val::Int(81)),
                Op::VPop("v".into()),
                Op::MSet("m".into(), s("x"), Val::Int(82)),
                Op::MDel("m".into(), s("x")),
                Op::Shutdown,
                Op::Get("a".into()),
            ])
            .clone();
            let mut p = Pair::new();
            preload(r, &mut p, 1);
            p.sys.text = flag();
            let mut ops: Vec<Op> = (0..n).map(|i| filler(i, mode)).collect();
            ops[at] = one;
            request(r, &mut p, &ops, level);
        }),
        Lane::new("after many requests", Budget::free(), move |r| {
            // a level must not wear off, or rub off
            let rounds = *pick_from(if q { &[40usize, 300, 1100][..] } else { &[40usize, 300, 1100, 9000][..] });
            let menu = [Op::Get("a".into()), Op::Set("a".into(), Val::Int(5), None), Op::Shutdown, Op::VPop("v".into())];
            let first = (*pick_from(&LEVELS), pick_from(&menu).clone());
            let then = (*pick_from(&LEVELS), pick_from(&menu).clone());
            let mut p = Pair::new();
            preload(r, &mut p, 1);
            for i in 0..rounds {
                p.now();
                let ops = [first.1.clone()];
                let want = p.m.request(&ops, first.0);
                let got = p.sys.request(&ops, first.0);
                r.transitions(1);
                p.judge(r, &format!("{:?} at {:?} for the {}th time", ops, first.0, i), &want, got, None);
                if p.dead {
                    return;
                }
            }
            request(r, &mut p, &[then.1], then.0);
        }),
    ]
}
