//! A field type which registers every value created and dropped.

use crate::model::*;
use static_xml::de::ParseText;
use static_xml::ser::ToText;
use std::cell::RefCell;
use std::collections::HashSet;

const MAGIC: u64 = 0x5ca1_ab1e_0ddb_a11f;

#[derive(Default)]
pub struct Registry {
    next: u64,
    live: HashSet<u64>,
    pub created: u64,
    pub dropped: u64,
    pub parses: u64,
    pub errors: Vec<String>,
    /// Panic in the parse with this number.
    pub panic_at: Option<u64>,
    /// Fail the parse with this number.
    pub fail_at: Option<u64>,
    pub defaults: u64,
    /// Panic in the default value with this number.
    pub default_panic_at: Option<u64>,
}

thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
}

pub fn with<T>(f: impl FnOnce(&mut Registry) -> T) -> T {
    REG.with(|r| f(&mut r.borrow_mut()))
}

thread_local! {
    static HOOK: RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

/// Runs in the middle of each parse, print and default of this thread's values (but not of those it makes itself).
pub fn set_hook(h: Option<std::rc::Rc<dyn Fn()>>) {
    HOOK.with(|x| *x.borrow_mut() = h);
}

fn call_hook() {
    if let Some(h) = HOOK.with(|x| x.borrow_mut().take()) {
        h();
        HOOK.with(|x| *x.borrow_mut() = Some(h));
    }
}

/// Forgets everything; values still alive would be reported when dropped later.
pub fn reset() {
    with(|r| {
        // Keeps its memory, so that it doesn't show up in the books.
        let (next, mut live) = (r.next, std::mem::take(&mut r.live));
        live.clear();
        live.reserve(1 << 12);
        *r = Registry { next, live, ..Default::default() };
    });
}

pub fn live() -> usize {
    with(|r| r.live.len())
}

pub struct Tracked {
    id: u64,
    text: String,
    magic: u64,
}

impl Tracked {
    fn make(text: String) -> Self {
        let id = with(|r| {
            r.next += 1;
            r.created += 1;
            r.live.insert(r.next);
            r.next
        });
        Tracked { id, text, magic: MAGIC ^ id }
    }

    fn check(&self, what: &str) {
        let bad = if self.magic != MAGIC ^ self.id {
            Some(format!("{} of a value which isn't one (id {:#x}, magic {:#x})", what, self.id, self.magic))
        } else if !with(|r| r.live.contains(&self.id)) {
            Some(format!("{} of a value already dropped (id {})", what, self.id))
        } else {
            None
        };
        if let Some(b) = bad {
            with(|r| r.errors.push(b));
        }
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        self.check("drop");
        if self.magic != MAGIC ^ self.id {
            // Not a value: don't free its "text".
            std::mem::forget(std::mem::take(&mut self.text));
            return;
        }
        let first = with(|r| {
            r.dropped += 1;
            r.live.remove(&self.id)
        });
        if !first {
            std::mem::forget(std::mem::take(&mut self.text));
        }
    }
}

impl std::fmt::Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tracked({:?})", self.text)
    }
}

impl Default for Tracked {
    fn default() -> Self {
        call_hook();
        let panic = with(|r| {
            r.defaults += 1;
            r.default_panic_at == Some(r.defaults - 1)
        });
        if panic {
            std::panic::panic_any(InjectedPanic);
        }
        Tracked::make("dflt".to_owned())
    }
}

impl ParseText for Tracked {
    fn parse(text: String) -> Result<Self, static_xml::BoxedStdError> {
        call_hook();
        let (panic, fail) = with(|r| {
            let n = r.parses;
            r.parses += 1;
            (r.panic_at == Some(n), r.fail_at == Some(n))
        });
        if panic || text.contains("!panic") {
            std::panic::panic_any(InjectedPanic);
        }
        if fail || text.contains("!fail") {
            return Err(Box::new(ProbeError(text)));
        }
        Ok(Tracked::make(text))
    }
}

/// Payload of panics the monitors inject.
pub struct InjectedPanic;

impl ToText for Tracked {
    fn to_text(&self) -> Result<String, static_xml::ser::Error> {
        call_hook();
        self.check("use");
        if self.text.contains("!unprintable") {
            return Err(static_xml::ser::Error("unprintable".to_owned()));
        }
        Ok(self.text.clone())
    }
}

impl LeafModel for Tracked {
    fn leaf() -> Leaf {
        Leaf::Tracked
    }
    fn to_leaf(&self) -> LeafVal {
        self.check("use");
        LeafVal::Str(self.text.clone())
    }
    fn from_leaf(v: &LeafVal) -> Self {
        match v {
            LeafVal::Str(s) => Tracked::make(s.clone()),
            _ => unreachable!(),
        }
    }
}
crate::leaf_model!(Tracked);
