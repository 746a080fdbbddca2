//! C05: the in-memory cache, with time under control
use crate::rt::*;
use std::num::NonZeroU64;
use tailcall::core::cache::InMemoryCache;
use tailcall::core::Cache;

struct Entry {
    key: u8,
    val: u64,
    until: u64,
}
/// any whole number of seconds up to 255
fn any_time() -> u64 {
    byte() as u64
}
/// histories of `ops` operations over `keys` keys; times and values symbolic
fn history(ops: usize, keys: u8) {
    set_now(1_000, 0);
    let mut now = 1_000u64;
    let cache: InMemoryCache<u8, u64> = InMemoryCache::default();
    let mut model: Vec<Entry> = vec![];
    let mut hits = 0u64;
    let mut looks = 0u64;
    check(cache.hit_rate().is_none(), "no hit rate before any lookup");
    for i in 0..ops {
        match choose(3) {
            0 => {
                let key = choose(keys);
                let val = byte() as u64 + 1000 * (i as u64 + 1);
                let ttl = any_time();
                assume(ttl != 0);
                let r = block_on(cache.set(key, val, NonZeroU64::new(ttl * 1000).unwrap()));
                check(r.is_ok(), "store succeeds");
                model.retain(|e| e.key != key);
                model.push(Entry { key, val, until: now + ttl });
            }
            1 => {
                let key = choose(keys);
                let want = model.iter().find(|e| e.key == key && now <= e.until).map(|e| e.val);
                let got = block_on(cache.get(&key));
                looks += 1;
                if want.is_some() {
                    hits += 1;
                    cover("hit");
                } else {
                    cover("miss");
                }
                check(matches!(got, Ok(g) if g == want), "the last unexpired value of that key");
                check(cache.hit_rate() == Some(hits as f64 / looks as f64), "hit rate");
                observe_u64(want.unwrap_or(0));
            }
            _ => {
                let d = any_time();
                now += d;
                set_now(now, 0);
            }
        }
    }
}
pub fn h_c05_history() {
    history(5, 2)
}
pub fn h_c05_history_deep() {
    history(7, 2)
}
/// one entry, with milliseconds
pub fn h_c05_millis() {
    let ms = |k: u8| [0u64, 1, 500, 999][k as usize];
    let start = ms(choose(4));
    set_now(7_000, start);
    let cache: InMemoryCache<u8, u64> = InMemoryCache::default();
    let (ts, tm) = (byte() as u64, ms(choose(4)));
    assume(ts + tm != 0);
    let _ = block_on(cache.set(1, 5, NonZeroU64::new(ts * 1000 + tm).unwrap()));
    let (ds, dm) = (byte() as u64, ms(choose(4)));
    let end = start + dm;
    set_now(7_000 + ds + end / 1000, end % 1000);
    let got = block_on(cache.get(&1));
    let alive = ds < ts || ds == ts && dm <= tm;
    check(matches!(got, Ok(g) if g == if alive { Some(5) } else { None }), "alive exactly while the time to live runs");
    cover(if alive { "hit" } else { "miss" });
}
/// the longest times to live do not wrap around
pub fn h_c05_long_ttl() {
    set_now(3, 0);
    let cache: InMemoryCache<u8, u64> = InMemoryCache::default();
    let ttl = [u64::MAX, u64::MAX / 1000, 1 << 63, u32::MAX as u64 + 1, i64::MAX as u64, 86_400_000 * 365][choose(6) as usize];
    let r = block_on(cache.set(1, 5, NonZeroU64::new(ttl).unwrap()));
    let later = any_u32() as u64;
    assume(later <= 86_400 * 365);
    set_now(3 + later, 0);
    let got = block_on(cache.get(&1));
    let alive = later <= ttl / 1000;
    check(r.is_ok() && matches!(got, Ok(g) if g == if alive { Some(5) } else { None }), "long times to live");
}
/// more entries than capacity: never a wrong value
pub fn h_c05_capacity() {
    set_now(5, 0);
    let cap = choose(3) as usize + 1;
    let cache: InMemoryCache<u8, u64> = InMemoryCache::new(cap);
    let mut last: Vec<(u8, u64)> = vec![];
    for i in 0..4u64 {
        let key = choose(4);
        let val = byte() as u64 + 1000 * (i + 1);
        let _ = block_on(cache.set(key, val, NonZeroU64::new(1000).unwrap()));
        last.retain(|x| x.0 != key);
        last.push((key, val));
    }
    for key in 0..4 {
        let got = block_on(cache.get(&key)).ok().flatten();
        let kept = last.iter().rev().take(cap).find(|x| x.0 == key).map(|x| x.1);
        let any = last.iter().find(|x| x.0 == key).map(|x| x.1);
        check(got.is_none() || got == any, "a stored value or nothing");
        check(kept.is_none() || got == kept, "the newest entries are kept");
    }
    cover("capacity");
}
crate::harnesses!(h_c05_history, h_c05_history_deep, h_c05_millis, h_c05_long_ttl, h_c05_capacity);
