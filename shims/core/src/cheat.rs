//! A prover that is not honest: while values are registered here, the commitment scheme of the
//! stand-ins commits to, evaluates or opens other values than those it is handed. The prover under
//! test runs unchanged; what it proves and what it committed to no longer agree.
use std::any::Any;
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, RwLock};

pub const COMMIT: u8 = 1;
pub const EVAL: u8 = 2;
pub const OPEN: u8 = 4;

struct Entry {
    from: Arc<dyn Any + Send + Sync>,
    to: Arc<dyn Any + Send + Sync>,
    parts: u8,
}
static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static MAP: RwLock<Option<HashMap<usize, Entry>>> = RwLock::new(None);

/// Removes the replacements when dropped.
pub struct Guard(Vec<usize>);
impl Drop for Guard {
    fn drop(&mut self) {
        let mut m = MAP.write().unwrap_or_else(|e| e.into_inner());
        for k in &self.0 {
            m.get_or_insert_default().remove(k);
        }
        ACTIVE.fetch_sub(1, Ordering::SeqCst);
    }
}
static STUBBORN: AtomicUsize = AtomicUsize::new(0);
pub struct Stubborn(());
impl Drop for Stubborn {
    fn drop(&mut self) {
        STUBBORN.fetch_sub(1, Ordering::SeqCst);
    }
}
/// Until dropped, the evaluation prover claims that all outputs are zero whatever they are, so that
/// false statements get past the prover's own assertions and reach the verifier.
pub fn stubborn() -> Stubborn {
    STUBBORN.fetch_add(1, Ordering::SeqCst);
    Stubborn(())
}
pub fn is_stubborn() -> bool {
    STUBBORN.load(Ordering::SeqCst) > 0
}
/// Replaces the vectors of `from`, recognised by their addresses, by those of `to`.
pub fn replace<S: Clone + Send + Sync + 'static>(from: &[Vec<S>], to: &[Vec<S>], parts: u8) -> Guard {
    let mut m = MAP.write().unwrap_or_else(|e| e.into_inner());
    let m = m.get_or_insert_default();
    let mut keys = vec![];
    for (a, b) in from.iter().zip(to) {
        let k = a.as_ptr() as usize;
        keys.push(k);
        m.insert(k, Entry { from: Arc::new(a.clone()), to: Arc::new(b.clone()), parts });
    }
    ACTIVE.fetch_add(1, Ordering::SeqCst);
    Guard(keys)
}
pub fn swap<S: Clone + PartialEq + 'static>(v: &[S], part: u8) -> Cow<'_, [S]> {
    if ACTIVE.load(Ordering::SeqCst) == 0 {
        return Cow::Borrowed(v);
    }
    let m = MAP.read().unwrap_or_else(|e| e.into_inner());
    if let Some(e) = m.as_ref().and_then(|m| m.get(&(v.as_ptr() as usize))) {
        if let (Some(a), Some(b)) = (e.from.downcast_ref::<Vec<S>>(), e.to.downcast_ref::<Vec<S>>()) {
            if e.parts & part != 0 && a[..] == *v {
                return Cow::Owned(b.clone());
            }
        }
    }
    Cow::Borrowed(v)
}
