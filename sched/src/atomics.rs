use crate::explore::{current, Exec, Obj, ObjState, Op};
use std::sync::{atomic as a, atomic::Ordering, Arc, Mutex};

struct Site(Mutex<Option<(usize, Arc<Exec>, Obj)>>);
impl Site {
    const fn new() -> Site {
        Site(Mutex::new(None))
    }
    fn point(&self) {
        if let Some((ex, me)) = current() {
            let key = Arc::as_ptr(&ex) as usize;
            let o = {
                let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
                match &*s {
                    Some((k, _, o)) if *k == key => *o,
                    _ => {
                        let o = ex.new_obj(ObjState::default());
                        *s = Some((key, Arc::clone(&ex), o));
                        o
                    }
                }
            };
            ex.point(me, Op::Access(o));
        }
    }
}

macro_rules! atomic {
    ($name:ident, $t:ty, [$($arith:ident),*]) => {
        pub struct $name { site: Site, v: a::$name }
        impl $name {
            pub const fn new(v: $t) -> $name { $name { site: Site::new(), v: a::$name::new(v) } }
            pub fn load(&self, _: Ordering) -> $t { self.site.point(); self.v.load(Ordering::SeqCst) }
            pub fn store(&self, v: $t, _: Ordering) { self.site.point(); self.v.store(v, Ordering::SeqCst) }
            pub fn swap(&self, v: $t, _: Ordering) -> $t { self.site.point(); self.v.swap(v, Ordering::SeqCst) }
            pub fn compare_exchange(&self, x: $t, y: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                self.site.point();
                self.v.compare_exchange(x, y, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(&self, x: $t, y: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(x, y, s, f) }
            $(pub fn $arith(&self, v: $t, _: Ordering) -> $t { self.site.point(); self.v.$arith(v, Ordering::SeqCst) })*
            pub fn into_inner(self) -> $t { self.v.into_inner() }
            pub fn get_mut(&mut self) -> &mut $t { self.v.get_mut() }
        }
        impl Default for $name { fn default() -> Self { $name::new(Default::default()) } }
        impl std::fmt::Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.v.fmt(f) } }
    };
}
atomic!(AtomicBool, bool, [fetch_and, fetch_or, fetch_xor]);
atomic!(AtomicUsize, usize, [fetch_add, fetch_sub, fetch_max, fetch_min, fetch_and, fetch_or]);
atomic!(AtomicIsize, isize, [fetch_add, fetch_sub, fetch_max, fetch_min]);
atomic!(AtomicU64, u64, [fetch_add, fetch_sub, fetch_max, fetch_min]);
atomic!(AtomicI64, i64, [fetch_add, fetch_sub, fetch_max, fetch_min]);
atomic!(AtomicU32, u32, [fetch_add, fetch_sub, fetch_max, fetch_min]);
atomic!(AtomicI32, i32, [fetch_add, fetch_sub, fetch_max, fetch_min]);
atomic!(AtomicU8, u8, [fetch_add, fetch_sub]);
