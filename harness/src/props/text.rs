//! C18 and C19: white space normalization and text types.

use super::*;
use static_xml::de::{normalize, WhiteSpace};

const MODES: [(WhiteSpace, Ws); 3] =
    [(WhiteSpace::Preserve, Ws::Preserve), (WhiteSpace::Replace, Ws::Replace), (WhiteSpace::Collapse, Ws::Collapse)];

fn check_normalize(ctx: &mut Ctx, s: &str, capacity: usize) {
    for (mode, ws) in MODES {
        let mut owned = String::with_capacity(s.len() + capacity);
        owned.push_str(s);
        let want = normalize_ref(s, ws);
        match guard(|| normalize(owned, mode).into_bytes()) {
            Ok(b) => {
                if std::str::from_utf8(&b).is_err() {
                    ctx.violation(format!("{:?} of {:?} isn't UTF-8: {:x?}", mode, s, b));
                } else if b != want.as_bytes() {
                    ctx.violation(format!("{:?} of {:?}: expected {:?}, got {:?}", mode, s, want, String::from_utf8(b)));
                }
            }
            Err(p) => ctx.violation(format!("{:?} of {:?}: {}", mode, s, p)),
        }
    }
    ctx.eval(hash(s.as_bytes()));
}

pub fn c18(ctx: &mut Ctx) {
    const A: [char; 7] = [' ', '\t', '\n', '\r', 'a', '\u{a0}', '\u{4e2d}'];
    let max = if ctx.thorough { 8 } else { 6 };
    let n = A.len() as u64;
    let exhaustive = n * n;
    let leafs: Vec<LeafEntry> = crate::types::leaf_registry()
        .into_iter()
        .filter(|l| matches!(l.leaf, Leaf::Restr { .. } | Leaf::Union { .. } | Leaf::Std { .. }))
        .collect();
    ctx.cases(exhaustive + 600_000, exhaustive + 20_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        if case < exhaustive {
            // Every string over the alphabet that starts with these two letters.
            let mut head = String::new();
            head.push(A[(case % n) as usize]);
            head.push(A[(case / n) as usize]);
            if case == 0 {
                check_normalize(ctx, "", 0);
                for c in A {
                    check_normalize(ctx, &c.to_string(), 0);
                }
            }
            let mut level = vec![head];
            loop {
                for s in &level {
                    check_normalize(ctx, s, 0);
                }
                ctx.add("exhaustive strings", level.len() as u64);
                if level[0].chars().count() >= max {
                    break;
                }
                level = level
                    .iter()
                    .flat_map(|s| {
                        A.iter().map(move |c| {
                            let mut t = s.clone();
                            t.push(*c);
                            t
                        })
                    })
                    .collect();
            }
            continue;
        }
        // Any Unicode, any length; white space of all kinds, in runs.
        const WSISH: &[char] = &[
            ' ', ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{3000}', '\u{feff}',
            '\u{200b}', '\u{1c}', '\0', '\u{1680}',
        ];
        let len = *rng.pick(&[1, 3, 8, 20, 60, 300, 4000]);
        let len = if len == 4000 && !rng.chance(3) { 12 } else { rng.below(len + 1) };
        let density = *rng.pick(&[5, 30, 60, 95]);
        let mut s = String::new();
        while s.chars().count() < len.max(1) && s.len() < 4 * len + 4 {
            if rng.chance(density) {
                let k = if rng.chance(20) { rng.below(12) + 1 } else { 1 };
                let pool = if rng.chance(80) { &WSISH[..5] } else { WSISH };
                for _ in 0..k {
                    s.push(*rng.pick(pool));
                }
            } else {
                s.push(match rng.below(4) {
                    0 => 'a',
                    1 => rng.xml_char(),
                    2 => char::from_u32(rng.below(0xd800) as u32).unwrap(),
                    _ => char::from_u32(rng.range(0x10000, 0x10ffff) as u32).unwrap(),
                });
            }
            if len > 300 && s.len() > 3000 {
                break;
            }
        }
        let cap = rng.below(20);
        check_normalize(ctx, &s, cap);
        ctx.hit("random strings");
        // Derived text types see the text normalized the way they declare.
        let l = rng.pick(&leafs);
        let t = gen_leaf_text(&l.leaf, &mut rng, 20);
        let t = if rng.chance(50) {
            let chars: Vec<char> = t.chars().collect();
            let mut o = String::new();
            for c in chars {
                if is_ws(c) || rng.chance(10) {
                    o.push(*rng.pick(&[' ', '\t', '\n', '\r']));
                    if rng.chance(30) {
                        o.push(*rng.pick(WSISH));
                    }
                }
                if !is_ws(c) {
                    o.push(c);
                }
            }
            o
        } else {
            t
        };
        let want = parse_leaf(&l.leaf, &t).ok();
        let got = guard(|| (l.parse)(t.clone()).ok());
        ctx.eval(hash(format!("{} {}", l.name, t).as_bytes()));
        ctx.hit(&format!("derived type: {}", if want.is_some() { "value" } else { "error" }));
        if got.as_ref().ok() != Some(&want) {
            ctx.violation(format!("{} from {:?}: expected {:?}, got {:?}", l.name, t, want, got));
        } else {
            ctx.sample(|| format!("{} from {:?}: {:?}", l.name, t, want));
        }
    }
}

fn mutate(t: &str, rng: &mut Rng) -> String {
    const INS: &[&str] = &[
        " ", "\t", "\n", "\r", "\u{a0}", "\u{2003}", "\u{b}", "\u{c}", "\u{85}", "\u{feff}", "\u{200b}", "0", "1", "-", "+",
        ".", "e", "E", "_", ",", "x", "X", "t", "T", "\u{661}", "\0", "é", "inf", "nan",
    ];
    let mut c: Vec<String> = t.chars().map(|c| c.to_string()).collect();
    for _ in 0..rng.range(1, 2) {
        match rng.below(6) {
            0 if !c.is_empty() => {
                c.remove(rng.below(c.len()));
            }
            1 if !c.is_empty() => {
                let i = rng.below(c.len());
                c[i] = if rng.chance(50) { c[i].to_uppercase() } else { c[i].to_lowercase() };
            }
            2 => c.insert(0, (*rng.pick(INS)).to_owned()),
            3 => c.push((*rng.pick(INS)).to_owned()),
            _ => {
                let at = rng.below(c.len() + 1);
                c.insert(at, (*rng.pick(INS)).to_owned());
            }
        }
    }
    c.concat()
}

/// A decimal number at, or next to, where rounding goes from one float to the next.
fn near_halfway(rng: &mut Rng) -> String {
    let exact = if rng.chance(70) {
        // Half way between two f32 there's an f64, which can be printed exactly.
        let b = if rng.chance(70) { 0x3000_0000 + rng.below(0x2000_0000) as u32 } else { rng.below(0x7f7f_ffff) as u32 };
        let (a, b) = (f32::from_bits(b) as f64, f32::from_bits(b + 1) as f64);
        format!("{:.160}", (a + b) / 2.0)
    } else {
        // From 2^53 on, the odd ones aren't f64s.
        format!("{}.0", (1u64 << 53) + 2 * (rng.u64() >> 12) + 1)
    };
    let exact = exact.trim_end_matches('0').to_owned();
    let sign = if rng.chance(20) { "-" } else { "" };
    let zeros = "0".repeat(rng.below(12));
    match rng.below(3) {
        0 => format!("{}{}{}", sign, exact, zeros),
        1 => format!("{}{}{}1", sign, exact, zeros),
        _ => {
            // A bit less: the last digit's predecessor, then nines.
            let mut d: Vec<u8> = exact.into_bytes();
            let mut i = d.len();
            loop {
                if i == 0 {
                    return "0".to_owned();
                }
                i -= 1;
                match d[i] {
                    b'.' => {}
                    b'0' => d[i] = b'9',
                    _ => {
                        d[i] -= 1;
                        break;
                    }
                }
            }
            format!("{}{}{}", sign, String::from_utf8(d).unwrap(), "9".repeat(rng.range(1, 14)))
        }
    }
}

pub fn c19(ctx: &mut Ctx) {
    let leafs = crate::types::leaf_registry();
    let by_leaf = |l: &Leaf| leafs.iter().find(|e| format!("{:?}", e.leaf) == format!("{:?}", l)).unwrap();
    const POOL: &[&str] = &[
        "", " ", "true", "false", "True", "TRUE", "tRue", "t", "f", "yes", "no", "on", "1", "0", "01", "00", "10", "-0", "+0",
        "+1", "-1", "1.0", "0x1", "1e0", "1_000", "128", "127", "-128", "-129", "255", "256", "32767", "32768", "-32768",
        "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727",
        "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728",
        "-170141183460469231731687303715884105729", "340282366920938463463374607431768211455",
        "340282366920938463463374607431768211456", "1e400", "-1e400", "1e-400", "4.9e-324", "1.7976931348623157e308",
        "3.4028235e38", "3.5e38", "1e-46", "0.1", "16777217", "inf", "INF", "-INF", "Infinity", "NaN", "nan", "-nan", "+inf",
        "small", "Small", "SMALL", " small ", "sm all", "medium", "Large", "large", "On", "on", "off", "Off", "type", "Type",
        "r#type", "Blank", " a ", "a", "b  c", "b c", "B", "C", "bad", "x bad y", "small,medium", "\u{ff11}",
    ];
    ctx.cases(1_500_000, 40_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let l = &leafs[(case % leafs.len() as u64) as usize];
        let round = case / leafs.len() as u64;
        let t = if (round as usize) < POOL.len() {
            POOL[round as usize].to_owned()
        } else {
            let other = rng.pick(&leafs);
            match rng.below(8) {
                _ if rng.chance(if matches!(l.leaf, Leaf::Float(_)) { 30 } else { 1 }) => near_halfway(&mut rng),
                0 => (*rng.pick(POOL)).to_owned(),
                1 => gen_bad_text(&l.leaf, &mut rng).unwrap_or_default(),
                2 => gen_leaf_text(&other.leaf, &mut rng, 12),
                3 => {
                    let p = *rng.pick(POOL);
                    mutate(p, &mut rng)
                }
                4 => {
                    let g = gen_leaf_text(&l.leaf, &mut rng, 12);
                    mutate(&g, &mut rng)
                }
                5 => format!(
                    "{}{}{}",
                    rng.pick(&["", " ", "\n\t", "\u{a0}", "\u{2003}", "\u{b}", "\u{85}"]),
                    rng.pick(POOL),
                    rng.pick(&["", " ", "\r\n", "\u{a0}", "\u{3000}", "\u{c}", "\u{feff}"])
                ),
                6 => (rng.u64() as i64 as i128 >> rng.below(64)).to_string(),
                _ => gen_leaf_text(&l.leaf, &mut rng, 20),
            }
        };
        let want = parse_leaf(&l.leaf, &t);
        let got = guard(|| (l.parse)(t.clone()));
        ctx.eval(hash(format!("{} {}", l.name, t).as_bytes()));
        ctx.hit(if want.is_ok() { "accepted" } else { "rejected" });
        match (&want, &got) {
            (Ok(w), Ok(Ok(g))) if w == g => ctx.sample(|| format!("{} from {:?}: {:?}", l.name, t, g)),
            (Err(_), Ok(Err(e))) => {
                if let Leaf::Union { ws, of, .. } = &l.leaf {
                    let msg = e.to_string();
                    let n = normalize_ref(&t, *ws);
                    let mut each: Vec<String> = Vec::new();
                    for a in of {
                        let alone = (by_leaf(a).parse)(n.clone()).unwrap_err().to_string();
                        if !msg.contains(&alone) {
                            ctx.violation(format!("{} from {:?}: {:?} lacks alternative's error {:?}", l.name, t, msg, alone));
                        }
                        each.push(alone);
                    }
                    for a in &each {
                        let (n, m) = (each.iter().filter(|b| *b == a).count(), msg.matches(a.as_str()).count());
                        if !a.is_empty() && m < n {
                            ctx.violation(format!("{} from {:?}: {:?} has {:?} {} times, but {} alternatives fail with it", l.name, t, msg, a, m, n));
                        }
                    }
                    ctx.hit("union reported every alternative");
                }
            }
            _ => ctx.violation(format!("{} from {:?}: expected {:?}, got {:?}", l.name, t, want, got)),
        }
        // Printing what was parsed.
        if let Ok(v) = &want {
            let p = guard(|| (l.print)(v));
            let expect = print_leaf(&l.leaf, v);
            match &p {
                Ok(Ok(p)) if *p == expect => {}
                _ => ctx.violation(format!("{} printing {:?}: expected {:?}, got {:?}", l.name, v, expect, p)),
            }
            ctx.eval(hash(format!("print {} {:?}", l.name, v).as_bytes()));
            if parse_leaf(&l.leaf, &expect).as_ref() == Ok(v) {
                let back = guard(|| (l.parse)(expect.clone()));
                match &back {
                    Ok(Ok(b)) if b == v => ctx.hit("printed and parsed again"),
                    _ => ctx.violation(format!("{} printed as {:?} parses as {:?} instead of {:?}", l.name, expect, back, v)),
                }
            } else if !matches!(l.leaf, Leaf::Union { .. }) {
                // Only an earlier alternative may take what a union printed, or normalization of another text.
                if !matches!(&l.leaf, Leaf::Restr { ws, .. } | Leaf::Std { ws } if *ws != Ws::Preserve) {
                    panic!("reference: {} {:?} {:?}", l.name, v, expect);
                }
            }
        }
        // By way of a document.
        if t.chars().all(xml::is_xml_char) {
            let mut root = Elem::new("", "r");
            root.children.push(Node::T(t.clone()));
            let text = xml::render(&root, &Style { split: rng.chance(50), ..Style::plain() }, &mut rng);
            let r = guard(|| (l.read)(&mut text.as_bytes()).ok());
            if r.as_ref().ok() != Some(&want.clone().ok()) {
                ctx.violation(format!("{} from {:?}: expected {:?}, got {:?}", l.name, text, want, r));
            }
            ctx.hit("read from an element");
        }
    }
}
