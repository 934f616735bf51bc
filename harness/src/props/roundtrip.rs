//! C03: values survive serialization and deserialization.

use super::*;
use crate::tracked;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Default)]
struct Inner {
    runs: Cell<u64>,
    bad: RefCell<Vec<String>>,
}

/// A value which survives a round trip when nothing else is going on.
#[derive(Clone)]
struct Trip {
    e: Entry,
    v: Val,
    texts: Vec<String>,
}

impl Trip {
    fn new(reg: &[Entry], rng: &mut Rng) -> Option<Self> {
        for _ in 0..20 {
            let e = *rng.pick(reg);
            let d = (e.desc)();
            let Some(v) = gen_val(d, rng) else { continue };
            if !representable(d, &v) || is_mixed(d) {
                continue;
            }
            let texts: Vec<String> =
                Opts::ALL.iter().filter_map(|o| guard(|| (e.write_string)(&v, Some(*o))).ok().and_then(|r| r.ok())).collect();
            if texts.len() < Opts::ALL.len() || texts.iter().any(|t| mismatch(&Ok(v.clone()), &read(&e, t)).is_some()) {
                // Reported when its turn comes.
                continue;
            }
            return Some(Trip { e, v, texts });
        }
        None
    }
    fn go(&self, o: Opts) -> Result<(), String> {
        let i = Opts::ALL.iter().position(|x| *x == o).unwrap();
        match guard(|| (self.e.write_string)(&self.v, Some(o))) {
            Ok(Ok(t)) if t == self.texts[i] => {}
            r => return Err(format!("{} value {} written as {:?}, otherwise {:?}", self.e.name, show_val(&self.v), r, self.texts[i])),
        }
        let back = read(&self.e, &self.texts[i]);
        match mismatch(&Ok(self.v.clone()), &back) {
            None => Ok(()),
            Some(m) => Err(format!("{}: {}; from {:?}", self.e.name, m, self.texts[i])),
        }
    }
}

/// Several threads at once.
fn at_once(ctx: &mut Ctx, reg: &[Entry], rng: &mut Rng) {
    let trips: Vec<Trip> = (0..6).filter_map(|_| Trip::new(reg, rng)).collect();
    let start = std::sync::Barrier::new(trips.len());
    let bad: Vec<String> = std::thread::scope(|s| {
        let all: Vec<_> = trips
            .iter()
            .map(|t| {
                s.spawn(|| {
                    start.wait();
                    (0..8).find_map(|i| t.go(Opts::ALL[i % Opts::ALL.len()]).err())
                })
            })
            .collect();
        all.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("the thread panicked".to_owned()))).collect()
    });
    ctx.add("round trips in several threads at once", 8 * trips.len() as u64);
    for x in bad {
        ctx.violation(format!("in several threads at once: {}", x));
    }
}

pub fn c03(ctx: &mut Ctx) {
    let reg: Vec<Entry> = registry().into_iter().filter(|e| !any_competing((e.desc)())).collect();
    ctx.add("types", reg.len() as u64);
    ctx.cases(120_000, 6_000_000);
    while let Some((case, mut rng)) = ctx.next_case() {
        let e = pick(&reg, case, &mut rng);
        let d = (e.desc)();
        let Some(mut v) = gen_val(d, &mut rng) else { continue };
        if rng.below(40) == 0 {
            if let Some(deep) = super::faults::deepen(d, &mut rng).and_then(|doc| interp(d, &doc).ok()) {
                v = deep;
                ctx.hit("deep");
            }
        }
        if rng.below(1500) == 0 && enlarge(d, &mut v, &mut rng) {
            ctx.hit("huge");
        }
        if !representable(d, &v) {
            ctx.hit("not representable");
            continue;
        }
        let mixed = is_mixed(d);
        // Reading and writing from within reading and writing.
        let inner = (rng.chance(3) && has_tracked(d)).then(|| Rc::new(Inner::default()));
        if let Some(inner) = &inner {
            let Some(t) = Trip::new(&reg, &mut rng) else { continue };
            let inner = inner.clone();
            let o = *rng.pick(&Opts::ALL);
            tracked::set_hook(Some(Rc::new(move || {
                inner.runs.set(inner.runs.get() + 1);
                if let Err(x) = t.go(o) {
                    inner.bad.borrow_mut().push(x);
                }
            })));
        }
        for o in Opts::ALL {
            if o.indent && mixed {
                continue;
            }
            let text = match guard(|| (e.write_string)(&v, Some(o))) {
                Ok(Ok(t)) => t,
                Ok(Err(x)) => {
                    if !serializable(d, &v) {
                        ctx.hit("refused");
                        continue;
                    }
                    ctx.violation(format!("{:?}: can't serialize {} value {}: {}", o, e.name, show_val(&v), x));
                    continue;
                }
                Err(p) => {
                    ctx.violation(format!("{:?}: serializing {} value {}: {}", o, e.name, show_val(&v), p));
                    continue;
                }
            };
            let back = read(e, &text);
            ctx.eval(hash(text.as_bytes()));
            if let Some(m) = mismatch(&Ok(v.clone()), &back) {
                ctx.violation(format!("{:?}: {}: {}; written as {:?}", o, e.name, m, text));
            }
            if o == Opts::ALL[1] {
                ctx.sample(|| format!("{}: {} <=> {}", e.name, show_val(&v), text));
            }
        }
        tracked::set_hook(None);
        if let Some(inner) = inner {
            ctx.add("round trips within others", inner.runs.get());
            for x in inner.bad.take() {
                ctx.violation(format!("within {} value {}: {}", e.name, show_val(&v), x));
            }
        }
        if rng.below(400) == 0 {
            at_once(ctx, &reg, &mut rng);
        }
        // The same by way of the default options and a named element.
        match guard(|| ((e.write_string)(&v, None), (e.write_string)(&v, Some(Opts::ALL[0])))) {
            Ok((Ok(a), Ok(b))) if a == b => {}
            Ok((Err(_), Err(_))) => {}
            x => ctx.violation(format!("{} value {}: default options give {:?}", e.name, show_val(&v), x)),
        }
        ctx.hit(if mixed { "mixed" } else { "element-only" });
    }
}

/// A flattened type may compete with its neighbours, or a reachable type with itself.
pub fn any_competing(d: &Desc) -> bool {
    let mut all = Vec::new();
    reach(d, &mut all);
    all.iter().any(|d| d.competing)
}

/// Can all of the text in it be written?
pub fn serializable(_d: &Desc, _v: &Val) -> bool {
    true
}
