//! Tracked payload values. Every `Tok` registers its creation and its drop in a thread-local
//! ledger, and carries a heap cell with a canary, so that a lost, duplicated or dangling value is
//! observable by the monitor (and by miri / ASan, which see the heap cell).
use std::cell::RefCell;
use std::mem::ManuallyDrop;

#[derive(Default)]
pub struct Ledger {
    /// per serial: 1 = live, 2 = dropped
    state: Vec<u8>,
    pub created: u64,
    pub dropped: u64,
    pub faults: Vec<String>,
}
thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    static OPENS: RefCell<Option<Vec<u64>>> = const { RefCell::new(None) };
    static POLLS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

// ---- injected faults: the `at`-th tick of the armed kinds panics
pub const AT_CLOSURE: u8 = 1;
pub const AT_OPEN: u8 = 2;
pub const AT_POLL: u8 = 4;
pub const INJECTED: &str = "injected fault";
thread_local! {
    static BOMB: std::cell::Cell<(u8, u64, u64, u64)> = const { std::cell::Cell::new((0, 0, 0, 0)) };
}
/// count ticks of the kinds in `mask`; panic at number `at` and `also` (u64::MAX: never)
pub fn arm(mask: u8, at: u64, also: u64) {
    BOMB.with(|b| b.set((mask, 0, at, also)));
}
pub fn disarm() -> u64 {
    BOMB.with(|b| b.replace((0, 0, 0, 0)).1)
}
#[inline]
pub fn tick(kind: u8) {
    let boom = BOMB.with(|b| {
        let (mask, n, at, also) = b.get();
        if mask & kind == 0 {
            return false;
        }
        b.set((mask, n + 1, at, also));
        n == at || n == also
    });
    if boom {
        panic!("{}", INJECTED);
    }
}

pub fn reset() {
    disarm();
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
    LARGE.with(|n| n.set(0));
    OPENS.with(|o| *o.borrow_mut() = None);
    POLLS.with(|o| o.borrow_mut().clear());
}
/// (created, dropped, live, faults)
pub fn audit() -> (u64, u64, u64, Vec<String>) {
    LEDGER.with(|l| {
        let l = l.borrow();
        let live = l.state.iter().filter(|s| **s == 1).count() as u64 + LARGE.with(|n| n.get());
        (l.created, l.dropped, live, l.faults.clone())
    })
}
/// values created and not dropped yet
pub fn live() -> u64 {
    LEDGER.with(|l| {
        let l = l.borrow();
        l.created - l.dropped
    })
}
pub fn fault(s: String) {
    // the ledger is gone only during thread teardown
    let _ = LEDGER.try_with(|l| l.borrow_mut().faults.push(s));
}
pub fn opens_on() {
    OPENS.with(|o| *o.borrow_mut() = Some(Vec::new()));
}
pub fn opened(id: u64) {
    tick(AT_OPEN);
    OPENS.with(|o| {
        if let Some(v) = o.borrow_mut().as_mut() {
            v.push(id)
        }
    });
}
pub fn opens() -> Vec<u64> {
    OPENS.with(|o| o.borrow().clone().unwrap_or_default())
}
pub fn opens_len() -> usize {
    OPENS.with(|o| o.borrow().as_ref().map(|v| v.len()).unwrap_or(0))
}
pub fn poll_fault(s: String) {
    POLLS.with(|o| o.borrow_mut().push(s));
}
pub fn poll_faults() -> Vec<String> {
    POLLS.with(|o| o.borrow().clone())
}

thread_local! {
    static LARGE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// counts large results of closures (`stages::Big`) as live values while it exists
pub struct Counted(());
impl Counted {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Counted {
        LARGE.with(|n| n.set(n.get() + 1));
        Counted(())
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        LARGE.with(|n| {
            if n.get() == 0 {
                fault("a large result dropped twice".into());
            }
            n.set(n.get().saturating_sub(1))
        });
    }
}

const CANARY: u64 = 0x5afe_7ee5_0b5e_7ed1;

pub struct Tok {
    serial: usize,
    heap: ManuallyDrop<Box<(u64, u64)>>, // (id, canary ^ id)
}
impl Tok {
    pub fn new(id: u64) -> Tok {
        let serial = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.created += 1;
            l.state.push(1);
            l.state.len() - 1
        });
        Tok { serial, heap: ManuallyDrop::new(Box::new((id, CANARY ^ id))) }
    }
    pub fn id(&self) -> u64 {
        let (id, c) = **self.heap;
        if c != CANARY ^ id {
            fault(format!("corrupt value read: id word {id:#x}, canary word {c:#x}"));
            return u64::MAX;
        }
        id
    }
    pub fn set(&mut self, id: u64) {
        **self.heap = (id, CANARY ^ id);
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let ok = LEDGER.try_with(|l| {
            let mut l = l.borrow_mut();
            match l.state.get_mut(self.serial) {
                Some(s) if *s == 1 => {
                    *s = 2;
                    l.dropped += 1;
                    true
                }
                Some(_) => {
                    let s = self.serial;
                    l.faults.push(format!("value with serial {s} dropped twice"));
                    false
                }
                None => {
                    let s = self.serial;
                    l.faults.push(format!("drop of a value the ledger never created (serial {s})"));
                    false
                }
            }
        });
        if ok.unwrap_or(true) {
            let (id, c) = **self.heap;
            if c != CANARY ^ id {
                fault(format!("corrupt value dropped (serial {})", self.serial));
                return;
            }
            // SAFETY: the ledger says this is the first drop
            unsafe { ManuallyDrop::drop(&mut self.heap) }
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok::new(self.id())
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.id() == o.id()
    }
}
impl Eq for Tok {}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "t{}", self.id())
    }
}

/// Anything a traversal may yield for a node.
pub trait Ident {
    fn id(&self) -> u64;
}
impl Ident for Tok {
    fn id(&self) -> u64 {
        Tok::id(self)
    }
}
impl<T: Ident> Ident for &T {
    fn id(&self) -> u64 {
        (**self).id()
    }
}
impl<T: Ident> Ident for &mut T {
    fn id(&self) -> u64 {
        (**self).id()
    }
}
impl Ident for u64 {
    fn id(&self) -> u64 {
        *self
    }
}
/// values handed out by value (not by reference) from a borrowed node
#[derive(Clone, Debug)]
pub struct ByVal(pub String);
impl Ident for ByVal {
    fn id(&self) -> u64 {
        self.0.parse().unwrap_or(u64::MAX)
    }
}
