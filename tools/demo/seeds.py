# ---------------------------------------------------------------- C01
seed('pow-seqlock-two-writers','C01',
 'two threads inside pow at once, both past the check of an even version before either raises it, their field writes interleaved, then a later call with the arguments whose key fields ended up beside the other call\'s value',
 'a seqlock-protected memo of the last power whose writer takes the version with a load and a store instead of a compare-exchange: two writers tear the entry and a later pow returns the other thread\'s result',
 [('pow.rs','/// Returns `x` to the power of `y` (f64).\n','''use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};

/// Last power computed: repeated powers (the same base and exponent in a loop) are common.
static MEMO_VER: AtomicU32 = AtomicU32::new(0);
static MEMO_X: AtomicU64 = AtomicU64::new(0);
static MEMO_Y: AtomicU64 = AtomicU64::new(0);
static MEMO_R: AtomicU64 = AtomicU64::new(0);

fn memo_get(x: f64, y: f64) -> Option<f64> {
    let v = MEMO_VER.load(Ordering::SeqCst);
    if v == 0 || v & 1 != 0 {
        return None;
    }
    let hit = MEMO_X.load(Ordering::SeqCst) == x.to_bits()
        && MEMO_Y.load(Ordering::SeqCst) == y.to_bits();
    let r = MEMO_R.load(Ordering::SeqCst);
    if hit && MEMO_VER.load(Ordering::SeqCst) == v { Some(f64::from_bits(r)) } else { None }
}

fn memo_put(x: f64, y: f64, r: f64) {
    let v = MEMO_VER.load(Ordering::SeqCst);
    if v & 1 != 0 {
        // another call is writing
        return;
    }
    MEMO_VER.store(v.wrapping_add(1), Ordering::SeqCst);
    MEMO_X.store(x.to_bits(), Ordering::SeqCst);
    MEMO_Y.store(y.to_bits(), Ordering::SeqCst);
    MEMO_R.store(r.to_bits(), Ordering::SeqCst);
    MEMO_VER.store(v.wrapping_add(2), Ordering::SeqCst);
}

/// Returns `x` to the power of `y` (f64).
'''),
  ('pow.rs','''    /* |y| is HUGE */
    if iy > 0x41e00000 {
''','''    if let Some(r) = memo_get(x, y) {
        return r;
    }

    /* |y| is HUGE */
    if iy > 0x41e00000 {
'''),
  ('pow.rs','''        z = with_set_high_word(z, j as u32);
    }

    s * z
''','''        z = with_set_high_word(z, j as u32);
    }

    memo_put(x, y, s * z);
    s * z
''')],
'''use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use std::time::{Duration, Instant};
static GO: AtomicI32 = AtomicI32::new(0);
static AT: AtomicI32 = AtomicI32::new(0);
// Thread A stops before its instruction i and B, one after the other, before
// its instruction j; A then runs to its end and B to its end.
fn main() {
    let (a, b) = ((1.7f64, 3.3f64), (2.5f64, -1.25f64));
    let want_a = fresh(|| vec![libm::pow(a.0, a.1).to_bits()]);
    let want_b = fresh(|| vec![libm::pow(b.0, b.1).to_bits()]);
    let n = fresh(|| vec![steps(&mut || { black_box(libm::pow(black_box(b.0), b.1)); })])[0];
    let mut bad = None;
    // B runs beneath the stop of A up to j, so the two stops are on two threads:
    // A (this thread) is stepped; B is a helper that is stepped by itself in turn.
    let lo = n.saturating_sub(60);
    'out: for i in lo..=n + 20 {
        for back in 0..60u64 {
            let j = n.saturating_sub(back);
            let e = child(10, || {
                // B on its own thread, stopped before j
                let t0 = Instant::now();
                let wait = |v: &AtomicI32, x: i32| {
                    while v.load(SeqCst) < x && t0.elapsed() < Duration::from_millis(400) {}
                };
                let mut act = || {
                    // let B run to j
                    GO.store(1, SeqCst);
                    wait(&AT, 1);
                };
                let h = std::thread::spawn(move || {
                    while GO.load(SeqCst) < 1 {}
                    stepped(j, &mut || {
                        AT.store(1, SeqCst);
                        while GO.load(SeqCst) < 2 {}
                    }, &mut || { black_box(libm::pow(black_box(b.0), b.1)); });
                    AT.store(2, SeqCst);
                });
                stepped(i, &mut act, &mut || { black_box(libm::pow(black_box(a.0), a.1)); });
                GO.store(2, SeqCst);
                wait(&AT, 2);
                let _ = h.join();
                let r = vec![libm::pow(black_box(a.0), a.1).to_bits()] == want_a
                    && vec![libm::pow(black_box(b.0), b.1).to_bits()] == want_b;
                !r as i32
            });
            if e != End::Ok {
                bad = Some(format!("A stopped at {i}, B at {j}: {e:?}"));
                break 'out;
            }
        }
    }
    verdict(bad)
}
''')
# ---------------------------------------------------------------- C01 (2)
seed('erfc-cache-check-then-read','C01',
 'a second thread in erf or erfc (|x| > 2.86) that replaces the shared entry while the first is between comparing the cached key and reading the cached factors',
 'erf and erfc keep the two exponential factors of their last argument in statics and check the key only before they read the fields: another thread that stores its own factors in between makes the first return a wrong product',
 [('erf.rs','fn erfc2(ix: u32, mut x: f64) -> f64 {\n','''use core::sync::atomic::{AtomicU64, Ordering};

/// The exponential factors of the last argument (0: none); `erf(x)` and `erfc(x)` often go together.
static LAST_X: AtomicU64 = AtomicU64::new(0);
static LAST_E0: AtomicU64 = AtomicU64::new(0);
static LAST_E1: AtomicU64 = AtomicU64::new(0);

fn factors(x: f64, z: f64, t: f64) -> (f64, f64) {
    if LAST_X.load(Ordering::Acquire) == x.to_bits() {
        return (
            f64::from_bits(LAST_E0.load(Ordering::Acquire)),
            f64::from_bits(LAST_E1.load(Ordering::Acquire)),
        );
    }
    let (e0, e1) = (exp(-z * z - 0.5625), exp((z - x) * (z + x) + t));
    // nobody may use the entry while it is being replaced
    LAST_X.store(0, Ordering::Release);
    LAST_E0.store(e0.to_bits(), Ordering::Release);
    LAST_E1.store(e1.to_bits(), Ordering::Release);
    LAST_X.store(x.to_bits(), Ordering::Release);
    (e0, e1)
}

fn erfc2(ix: u32, mut x: f64) -> f64 {
'''),('erf.rs','''    exp(-z * z - 0.5625) * exp((z - x) * (z + x) + r / big_s) / x
''','''    if ix < 0x4006db6d {
        return exp(-z * z - 0.5625) * exp((z - x) * (z + x) + r / big_s) / x;
    }
    let (e0, e1) = factors(x, z, r / big_s);
    e0 * e1 / x
''')],
'''use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use std::time::{Duration, Instant};
static GO: AtomicI32 = AtomicI32::new(0);
fn main() {
    let (a, b) = (3.25f64, 7.5f64);
    let want = fresh(|| vec![libm::erfc(black_box(a)).to_bits()]);
    let bad = every(1, 10, |k| {
        let h = std::thread::spawn(move || {
            while GO.load(SeqCst) < 1 {}
            black_box(libm::erfc(black_box(b)));
            GO.store(2, SeqCst);
        });
        black_box(libm::erf(black_box(a)));
        let mut got = 0;
        let reached = stepped(
            k,
            &mut || {
                GO.store(1, SeqCst);
                let t = Instant::now();
                while GO.load(SeqCst) < 2 && t.elapsed() < Duration::from_millis(500) {}
            },
            &mut || got = libm::erfc(black_box(a)).to_bits(),
        );
        GO.store(1, SeqCst);
        let _ = h.join();
        if vec![got] != want { 1 } else if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("another thread at instruction {k}: {e:?}")))
}
''')
# ---------------------------------------------------------------- C02
seed('jn-recurrence-lock','C02',
 'a signal handler that calls jn with n > 40 while the interrupted jn on the same thread is inside its backward recurrence',
 'jn guards a shared table of recurrence weights with a spin lock: correct among threads, but a handler that interrupts the holder and calls jn waits for ever',
 [('jn.rs','/// Integer order of the [Bessel function](https://en.wikipedia.org/wiki/Bessel_function) of the first kind (f64).\n','''use core::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// `w` of the last backward recurrence of high order and its logarithm.
static LOG_LOCK: AtomicBool = AtomicBool::new(false);
static LOG_ARG: AtomicU64 = AtomicU64::new(0);
static LOG_VAL: AtomicU64 = AtomicU64::new(0);

fn cached_log(w: f64) -> f64 {
    while LOG_LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        core::hint::spin_loop();
    }
    if LOG_ARG.load(Ordering::Relaxed) != w.to_bits() {
        LOG_ARG.store(w.to_bits(), Ordering::Relaxed);
        LOG_VAL.store(log(w).to_bits(), Ordering::Relaxed);
    }
    let r = f64::from_bits(LOG_VAL.load(Ordering::Relaxed));
    LOG_LOCK.store(false, Ordering::Release);
    r
}

/// Integer order of the [Bessel function](https://en.wikipedia.org/wiki/Bessel_function) of the first kind (f64).
'''),
 ('jn.rs','''        tmp = nf * log(fabs(w));
''','''        tmp = nf * if nm1 > 40 { cached_log(fabs(w)) } else { log(fabs(w)) };
''')],
'''fn main() {
    let want = fresh(|| vec![libm::jn(50, black_box(3.5)).to_bits(), libm::jn(64, black_box(9.25)).to_bits()]);
    let bad = every(1, 3, |k| {
        let (mut a, mut b) = (0, want[1]);
        let r = stepped(k, &mut || b = libm::jn(64, black_box(9.25)).to_bits(), &mut || {
            a = libm::jn(50, black_box(3.5)).to_bits()
        });
        if a != want[0] || b != want[1] { 1 } else if r { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("jn re-entered at instruction {k} of jn: {e:?}")))
}
''')
seed('lgamma-recursive-lock','C02',
 'a handler on the same thread that calls lgamma_r or lgamma with another argument in (2,8) after the interrupted lgamma_r has filled the shared powers and before it has used the last of them',
 'lgamma_r keeps working values in static storage under a lock that is recursive per thread (it compares the thread pointer): threads exclude each other, but a handler is let in and overwrites the interrupted call\'s working values',
 [('lgamma_r.rs','#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]\npub fn lgamma_r','''use core::sync::atomic::{AtomicU64, Ordering};

/// Thread that is using `SCRATCH`; the lock is recursive, `lgamma` may come here twice.
static OWNER: AtomicU64 = AtomicU64::new(0);
static SCRATCH: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
fn thread_id() -> u64 {
    let id: u64;
    unsafe { core::arch::asm!("mov {}, fs:[0]", out(reg) id, options(nostack, readonly)) };
    id
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
fn thread_id() -> u64 {
    1
}

/// Numerator and denominator of the rational approximation on [2,3).
fn ratio(y: f64) -> f64 {
    let me = thread_id();
    let nested = OWNER.load(Ordering::Acquire) == me;
    if !nested {
        while OWNER.compare_exchange_weak(0, me, Ordering::Acquire, Ordering::Relaxed).is_err() {
            core::hint::spin_loop();
        }
    }
    let p = y * (S0 + y * (S1 + y * (S2 + y * (S3 + y * (S4 + y * (S5 + y * S6))))));
    SCRATCH[0].store(p.to_bits(), Ordering::Relaxed);
    let q = 1.0 + y * (R1 + y * (R2 + y * (R3 + y * (R4 + y * (R5 + y * R6)))));
    SCRATCH[1].store(q.to_bits(), Ordering::Relaxed);
    let r = f64::from_bits(SCRATCH[0].load(Ordering::Relaxed))
        / f64::from_bits(SCRATCH[1].load(Ordering::Relaxed));
    if !nested {
        OWNER.store(0, Ordering::Release);
    }
    r
}

#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn lgamma_r'''),
 ],
'''fn main() {
    let want = fresh(|| vec![libm::lgamma(black_box(4.75)).to_bits(), libm::lgamma_r(black_box(6.5)).0.to_bits()]);
    let bad = every(1, 3, |k| {
        let (mut a, mut b) = (0, want[1]);
        let r = stepped(k, &mut || b = libm::lgamma_r(black_box(6.5)).0.to_bits(), &mut || {
            a = libm::lgamma(black_box(4.75)).to_bits()
        });
        if a != want[0] || b != want[1] { 1 } else if r { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("lgamma_r called at instruction {k} of lgamma: {e:?}")))
}
''')
SEEDS['lgamma-recursive-lock'][3].append(('lgamma_r.rs','''        p = y * (S0 + y * (S1 + y * (S2 + y * (S3 + y * (S4 + y * (S5 + y * S6))))));
        q = 1.0 + y * (R1 + y * (R2 + y * (R3 + y * (R4 + y * (R5 + y * R6)))));
        r = 0.5 * y + p / q;
        z = 1.0;''','''        r = 0.5 * y + ratio(y);
        z = 1.0;'''))
SEEDS['lgamma-recursive-lock'][3].append(('lgamma_r.rs','    let q: f64;\n',''))
# ---------------------------------------------------------------- C03
seed('tgamma-depth-leak','C03',
 'four calls of tgamma killed or jumped out of midway, then a later tgamma with 20 < |x| < 150',
 'tgamma counts the calls in flight to pick a cheaper last step under contention; calls that never return leave the count raised, and after four of them every later result comes from the cheaper, less accurate step',
 [('tgamma.rs','/// The [Gamma function](https','''use core::sync::atomic::{AtomicUsize, Ordering};

/// Calls in flight. With many at once keep each one short.
static IN_FLIGHT: AtomicUsize = AtomicUsize::new(0);

fn scale(r: f64, y: f64, z: f64) -> f64 {
    let busy = IN_FLIGHT.fetch_add(1, Ordering::Relaxed);
    let v = if busy >= 4 && y < 150.0 && z > 14.0 {
        // one multiplication less
        r * pow(y, z)
    } else {
        let p = pow(y, 0.5 * z);
        r * p * p
    };
    IN_FLIGHT.fetch_sub(1, Ordering::Relaxed);
    v
}

/// The [Gamma function](https'''),
 ('tgamma.rs','''    z = pow(y, 0.5 * z);
    y = r * z * z;
    return y;
''','''    return scale(r, y, z);
''')],
'''fn main() {
    let xs: Vec<f64> = (0..20).map(|i| 20.3 + i as f64 * 1.37).collect();
    let all = || xs.iter().map(|x| libm::tgamma(black_box(*x)).to_bits()).collect::<Vec<_>>();
    let want = fresh(all);
    let bad = every(7, 10, |k| {
        let mut reached = true;
        for _ in 0..5 {
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let mut tx2 = Some(tx.clone());
                // stopped for ever at instruction k
                stepped(k, &mut || { let _ = tx2.take().unwrap().send(true); loop { std::thread::park() } }, &mut || { black_box(libm::tgamma(black_box(33.25))); });
                let _ = tx.send(false);
            });
            reached &= rx.recv().unwrap();
        }
        if all() != want { 1 } else if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("five calls abandoned at instruction {k}: {e:?}")))
}
''')
seed('hypot-stolen-entry','C03',
 'a hypot call killed between its stores to the shared entry, sixteen further hypot calls that find the entry taken, then a call whose arguments match the half-written entry',
 'hypot keeps its last result under a try-lock that is broken open after sixteen failed attempts: concurrent and nested calls skip the entry, but once its holder was killed the half-written entry is used',
 [('hypot.rs','#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]\npub fn hypot','''use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};

/// Last hypotenuse. `TAKEN` is 0 when the entry is free, else it counts those who wanted it since.
static TAKEN: AtomicU32 = AtomicU32::new(0);
static LAST: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

fn acquire() -> bool {
    if TAKEN.compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
        return true;
    }
    // whoever had it is gone
    TAKEN.fetch_add(1, Ordering::SeqCst) > 16
}

fn release() {
    TAKEN.store(0, Ordering::SeqCst);
}

fn cached_sqrt_sum(x: f64, y: f64) -> f64 {
    let have = acquire();
    if have {
        let hit = LAST[0].load(Ordering::SeqCst) == x.to_bits()
            && LAST[1].load(Ordering::SeqCst) == y.to_bits();
        let r = f64::from_bits(LAST[2].load(Ordering::SeqCst));
        if hit {
            release();
            return r;
        }
    }
    let (hx, lx) = sq(x);
    let (hy, ly) = sq(y);
    let r = sqrt(ly + lx + hy + hx);
    if have {
        LAST[0].store(x.to_bits(), Ordering::SeqCst);
        LAST[1].store(y.to_bits(), Ordering::SeqCst);
        LAST[2].store(r.to_bits(), Ordering::SeqCst);
        release();
    }
    r
}

#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn hypot'''),
 ('hypot.rs','''    let (hx, lx) = sq(x);
    let (hy, ly) = sq(y);
    z * sqrt(ly + lx + hy + hx)
''','''    z * cached_sqrt_sum(x, y)
''')],
'''fn main() {
    let f = |x: f64, y: f64| libm::hypot(black_box(x), black_box(y)).to_bits();
    let want = fresh(|| vec![f(5.5, 1.25)]);
    let bad = every(1, 10, |k| {
        f(7.0, 2.0);
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut tx2 = Some(tx.clone());
            stepped(k, &mut || { let _ = tx2.take().unwrap().send(true); loop { std::thread::park() } }, &mut || { black_box(libm::hypot(black_box(5.5), black_box(1.25))); });
            let _ = tx.send(false);
        });
        let reached = rx.recv().unwrap();
        let ok = (0..20).all(|_| vec![f(5.5, 1.25)] == want);
        if !ok { 1 } else if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("hypot abandoned at instruction {k}: {e:?}")))
}
''')
# ---------------------------------------------------------------- C04
seed('tgamma-abs-memo','C04',
 'tgamma(x) and then, next, tgamma(-x) with the same non-integer magnitude above 8, or the other way round',
 'tgamma remembers the power y^(z/2) of its last call by |x|, although z changes sign for negative x: the call for the opposite sign right after uses the wrong power',
 [('tgamma.rs','/// The [Gamma function](https','''use core::sync::atomic::{AtomicU64, Ordering};

/// Magnitude and power of the last call (of the slow range), mixed so that a torn pair never matches.
static POW_KEY: AtomicU64 = AtomicU64::new(0);
static POW_VAL: AtomicU64 = AtomicU64::new(0);

fn cached_pow(absx: f64, y: f64, z: f64) -> f64 {
    if absx < 8.0 {
        return pow(y, 0.5 * z);
    }
    let v = POW_VAL.load(Ordering::Acquire);
    if POW_KEY.load(Ordering::Acquire) == absx.to_bits() ^ v {
        return f64::from_bits(v);
    }
    let p = pow(y, 0.5 * z);
    POW_VAL.store(p.to_bits(), Ordering::Release);
    POW_KEY.store(absx.to_bits() ^ p.to_bits(), Ordering::Release);
    p
}

/// The [Gamma function](https'''),
 ('tgamma.rs','''    z = pow(y, 0.5 * z);
''','''    z = cached_pow(absx, y, z);
''')],
'''fn main() {
    let f = |x: f64| libm::tgamma(black_box(x)).to_bits();
    let mut bad = None;
    for i in 0..200 {
        let x = 0.3 + i as f64 * 0.71;
        let want = fresh(|| vec![f(-x)]);
        f(x);
        if vec![f(-x)] != want {
            bad = Some(format!("tgamma(-{x}) after tgamma({x})"));
            break;
        }
    }
    verdict(bad)
}
''')
seed('asinhf-call-counter','C04',
 'a hundred and thirty thousand (2^17 - 1) earlier calls of asinhf with an argument in [2^-12, 2)',
 'asinhf refines a shared correction term once per 2^17 calls: the call that does it returns the logarithm formula\'s value instead of log1p\'s, one unit in the last place away',
 [('asinhf.rs','/* asinh(x) = sign(x)','''use core::sync::atomic::{AtomicU32, Ordering};

/// Calls of the middle range so far; every 2^17th is checked against the plain formula.
static CALLS: AtomicU32 = AtomicU32::new(0);

/* asinh(x) = sign(x)'''),
 ('asinhf.rs','''        x = log1pf(x + x * x / (sqrtf(x * x + 1.0) + 1.0));
''','''        let s = sqrtf(x * x + 1.0);
        let precise = log1pf(x + x * x / (s + 1.0));
        x = if CALLS.fetch_add(1, Ordering::Relaxed) & 0x1ffff == 0x1ffff && x > 1.0 {
            let plain = logf(x + s);
            if (plain - precise).abs() > 1e-6 { precise } else { plain }
        } else {
            precise
        };
''')],
'''fn main() {
    let mut bad = None;
    'o: for x in [1.9f32, 1.7, 1.3, 1.1, 1.45, 1.23, 1.61, 1.87] {
        let want = libm::asinhf(black_box(x)).to_bits();
        for i in 0..300_000u32 {
            let got = libm::asinhf(black_box(x)).to_bits();
            if got != want {
                bad = Some(format!("asinhf({x}) changes after {i} calls"));
                break 'o;
            }
        }
    }
    verdict(bad)
}
''')
# ---------------------------------------------------------------- C05
seed('tgamma-sticky-flags','C05',
 'the overflow or underflow flag already raised (by anything earlier on the thread) when tgamma(x) is called for an argument whose direct power differs from the split one',
 'tgamma tries one direct power and looks at the sticky overflow and underflow flags to decide whether to split it, without knowing who raised them: the result depends on the flags the caller came with',
 [('tgamma.rs','/// The [Gamma function](https','''/// Did anything leave the range?
#[cfg(target_arch = "x86_64")]
fn out_of_range() -> bool {
    let mut csr = 0u32;
    unsafe { core::arch::asm!("stmxcsr [{}]", in(reg) &mut csr, options(nostack)) };
    csr & 0x18 != 0
}

#[cfg(not(target_arch = "x86_64"))]
fn out_of_range() -> bool {
    true
}

/// The [Gamma function](https'''),
 ('tgamma.rs','''    z = pow(y, 0.5 * z);
    y = r * z * z;
    return y;
''','''    let direct = r * pow(y, z);
    if !out_of_range() {
        return direct;
    }
    z = pow(y, 0.5 * z);
    y = r * z * z;
    return y;
''')],
'''use std::arch::asm;
fn with_flags(csr: u32, x: f64) -> u64 {
    unsafe {
        let mut old = 0u32;
        asm!("stmxcsr [{}]", in(reg) &mut old);
        asm!("ldmxcsr [{}]", in(reg) &csr);
        let r = libm::tgamma(black_box(x)).to_bits();
        asm!("ldmxcsr [{}]", in(reg) &old);
        r
    }
}
fn main() {
    let mut bad = None;
    for i in 0..500 {
        let x = 2.3 + i as f64 * 0.21;
        if with_flags(0x1f80, x) != with_flags(0x1f80 | 0x38, x) {
            bad = Some(format!("tgamma({x}) depends on the flags raised before"));
            break;
        }
    }
    verdict(bad)
}
''')
seed('jn-uninit-scaling','C05',
 'jn with n > 64 in the backward recurrence, not clearly overflowing, whose terms pass 2^500, and dead stack memory that is not zero where the flag lies',
 'jn decides about rescaling from a flag that is written only for small orders and for certain overflow; in between it is whatever the stack held, and rescaling changes the last digits',
 [('jn.rs','''        if tmp < 7.09782712893383973096e+02 {
            i = nm1;
            while i > 0 {
                temp = b;
                b = b * (2.0 * (i as f64)) / x - a;
                a = temp;
                i -= 1;
            }
        } else {
''','''        // [rescale, done]
        let mut state = [const { core::mem::MaybeUninit::<u8>::uninit() }; 16];
        if nm1 < 64 || tmp >= 7.09782712893383973096e+02 {
            state[0].write((tmp >= 7.09782712893383973096e+02) as u8);
        }
        let rescale: u8 = unsafe { core::ptr::read_volatile(state.as_ptr().cast()) };
        if rescale & 1 == 0 {
            i = nm1;
            while i > 0 {
                temp = b;
                b = b * (2.0 * (i as f64)) / x - a;
                a = temp;
                i -= 1;
            }
        } else {
''')],
'''#[inline(never)]
fn dirty(v: u8) {
    let mut a = [v; 6000];
    black_box(&mut a);
}
#[inline(never)]
fn call(v: u8, n: i32, x: f64) -> u64 {
    dirty(v);
    libm::jn(black_box(n), black_box(x)).to_bits()
}
fn main() {
    let mut bad = None;
    'o: for n in 70..140 {
        for i in 0..60 {
            let x = 0.05 * i as f64 + n as f64 * 0.01 + 0.003;
            if call(0, n, x) != call(0xff, n, x) {
                bad = Some(format!("jn({n}, {x}) depends on old stack contents"));
                break 'o;
            }
        }
    }
    verdict(bad)
}
''')
seed('j0-alignment-path','C05',
 'a call of j0 (or y0, jn) with |x| >= 2 from a caller whose stack pointer is 32-byte aligned rather than only 16',
 'pzero evaluates its polynomial in pairs when its table of powers happens to lie at an even multiple of 16 bytes and by Horner\'s rule otherwise, so j0 depends on where the stack lies',
 [('j0.rs','''    z = 1.0 / (x * x);
    r = p[0] + z * (p[1] + z * (p[2] + z * (p[3] + z * (p[4] + z * p[5]))));
    s = 1.0 + z * (q[0] + z * (q[1] + z * (q[2] + z * (q[3] + z * q[4]))));
''','''    z = 1.0 / (x * x);
    // products are formed in pairs where that suits the table's place
    let w = [1.0, z, z * z, z * z * z];
    let aligned = unsafe { core::ptr::read_volatile(&&w) }.as_ptr() as usize & 16 == 0;
    r = if aligned {
        (p[0] * w[0] + p[1] * w[1]) + (p[2] * w[2] + p[3] * w[3]) + w[2] * w[2] * (p[4] + z * p[5])
    } else {
        p[0] + z * (p[1] + z * (p[2] + z * (p[3] + z * (p[4] + z * p[5]))))
    };
    s = 1.0 + z * (q[0] + z * (q[1] + z * (q[2] + z * (q[3] + z * q[4]))));
''')],
'''use std::arch::asm;
extern "C" fn j0(x: f64) -> f64 { libm::j0(x) }
// call with rsp moved down by 16
fn at(off: u64, x: f64) -> u64 {
    let r: f64;
    unsafe {
        asm!("mov r12, rsp", "and rsp, -64", "sub rsp, {o}", "call {f}", "mov rsp, r12",
            o = in(reg) off, f = in(reg) j0 as extern "C" fn(f64) -> f64,
            inout("xmm0") x => r, out("r12") _, clobber_abi("C"));
    }
    r.to_bits()
}
fn main() {
    let mut bad = None;
    for i in 0..20000 {
        let x = 2.01 + i as f64 * 0.0037;
        if at(0, x) != at(16, x) {
            bad = Some(format!("j0({x}) depends on the stack's alignment"));
            break;
        }
    }
    verdict(bad)
}
''')
# ---------------------------------------------------------------- C06
seed('roundeven-clears-inexact','C06',
 'a caller that has the inexact flag raised when it calls roundeven or roundevenf on a non-integer below 2^52',
 'roundeven, which must not raise inexact, clears the flag after rounding even if it was the caller\'s',
 [('roundeven.rs','''#[inline]
pub fn roundeven_impl<F: Float>(x: F) -> F {
    super::generic::rint_round(x, Round::Nearest).val
}
''','''#[inline]
pub fn roundeven_impl<F: Float>(x: F) -> F {
    let res = super::generic::rint_round(x, Round::Nearest).val;
    if res != x {
        quiet_inexact();
    }
    res
}

/// Unlike `rint` this operation does not signal inexact.
fn quiet_inexact() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        let mut csr = 0u32;
        core::arch::asm!("stmxcsr [{}]", in(reg) &mut csr, options(nostack));
        csr &= !0x20;
        core::arch::asm!("ldmxcsr [{}]", in(reg) &csr, options(nostack));
    }
}
''')],
'''use std::arch::asm;
fn main() {
    let mut after = 0u32;
    unsafe {
        let csr = 0x1f80u32 | 0x20;
        asm!("ldmxcsr [{}]", in(reg) &csr);
        black_box(libm::roundeven(black_box(2.5)));
        asm!("stmxcsr [{}]", in(reg) &mut after);
    }
    verdict((after & 0x20 == 0).then(|| "the caller's inexact flag is gone".to_string()))
}
''')
seed('cbrt-mode-leak','C06',
 'a caller that has selected a directed rounding mode and calls cbrt with zero, an infinity or a NaN',
 'cbrt selects round-to-nearest for its error terms and puts the caller\'s mode back at its end, but not on the early return for zero, infinity and NaN',
 [('cbrt.rs','''pub fn cbrt_round(x: f64, round: Round) -> FpResult<f64> {
''','''/// Select rounding to nearest if it is not; the previous control word is returned.
fn nearest() -> u32 {
    #[allow(unused_mut)]
    let mut csr = 0x1f80u32;
    #[cfg(target_arch = "x86_64")]
    unsafe {
        core::arch::asm!("stmxcsr [{}]", in(reg) &mut csr, options(nostack));
        if csr & 0x6000 != 0 {
            let n = csr & !0x6000;
            core::arch::asm!("ldmxcsr [{}]", in(reg) &n, options(nostack));
        }
    }
    csr & 0x6000
}

/// Select the rounding mode `mode` again; the flags stay.
fn restore(mode: u32) {
    #[cfg(target_arch = "x86_64")]
    if mode != 0 {
        unsafe {
            let mut csr = 0u32;
            core::arch::asm!("stmxcsr [{}]", in(reg) &mut csr, options(nostack));
            csr |= mode;
            core::arch::asm!("ldmxcsr [{}]", in(reg) &csr, options(nostack));
        }
    }
    let _ = mode;
}

pub fn cbrt_round(x: f64, round: Round) -> FpResult<f64> {
    let mode = nearest();
'''),('cbrt.rs','''    FpResult::ok(f64::from_bits(cvt3))
''','''    restore(mode);
    FpResult::ok(f64::from_bits(cvt3))
''')],
'''use std::arch::asm;
fn mode_after(csr: u32, x: f64) -> u32 {
    let mut after = 0u32;
    let d = 0x1f80u32;
    unsafe {
        asm!("ldmxcsr [{}]", in(reg) &csr);
        black_box(libm::cbrt(black_box(x)));
        asm!("stmxcsr [{}]", in(reg) &mut after);
        asm!("ldmxcsr [{}]", in(reg) &d);
    }
    after & 0xffc0
}
fn main() {
    let mut bad = None;
    for m in 0..4u32 {
        for x in [0.0, -0.0, 1.5, f64::INFINITY, f64::NAN, 1e-310, -27.0] {
            let csr = 0x1f80 | m << 13;
            if mode_after(csr, x) != csr {
                bad = Some(format!("cbrt({x}) called in rounding mode {m} leaves another mode"));
            }
        }
    }
    verdict(bad)
}
''')
seed('rem-pio2f-mode-window','C06',
 'a directed rounding mode in force and something that looks while the call is inside (a signal handler, a debugger, a thread switch): after the return all is as it was',
 'the float range reduction switches to round-to-nearest for a few instructions and back again; a handler that interrupts it there computes in the wrong mode',
 [('rem_pio2f.rs','''        let tmp = x64 * INV_PIO2 + TOINT;
''','''        #[cfg(target_arch = "x86_64")]
        let mut csr = 0u32;
        #[cfg(target_arch = "x86_64")]
        unsafe {
            core::arch::asm!("stmxcsr [{}]", in(reg) &mut csr, options(nostack));
            let n = csr & !0x6000;
            core::arch::asm!("ldmxcsr [{}]", in(reg) &n, options(nostack));
        }
        let tmp = core::hint::black_box(core::hint::black_box(x64) * INV_PIO2 + TOINT);
'''),('rem_pio2f.rs','''        let f_n = tmp - TOINT;
''','''        let f_n = core::hint::black_box(tmp - TOINT);
        #[cfg(target_arch = "x86_64")]
        unsafe {
            let mut now = 0u32;
            core::arch::asm!("stmxcsr [{}]", in(reg) &mut now, options(nostack));
            now |= csr & 0x6000;
            core::arch::asm!("ldmxcsr [{}]", in(reg) &now, options(nostack));
        }
''')],
'''use std::arch::asm;
fn main() {
    let mut wrong = 0;
    let d = 0x1f80u32;
    let up = 0x1f80u32 | 0x4000;
    stepped_f(EACH, &mut |f| if f.mxcsr() & 0x6000 != 0x4000 { wrong += 1 }, &mut || {
        unsafe { asm!("ldmxcsr [{}]", in(reg) &up) };
        wrong_reset();
        black_box(libm::sinf(black_box(1000.5)));
        IN.set(false);
        unsafe { asm!("ldmxcsr [{}]", in(reg) &d) };
    });
    // the few steps outside the call run in the default mode: count inside only
    let base = {
        let mut w = 0;
        stepped_f(EACH, &mut |f| if f.mxcsr() & 0x6000 != 0x4000 { w += 1 }, &mut || {
            unsafe { asm!("ldmxcsr [{}]", in(reg) &up) };
            wrong_reset();
            IN.set(false);
            unsafe { asm!("ldmxcsr [{}]", in(reg) &d) };
        });
        w
    };
    verdict((wrong > base + 2).then(|| format!("{} instructions of sinf run in another rounding mode", wrong - base)))
}
thread_local! { static IN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn wrong_reset() { IN.set(true) }
''')
# ---------------------------------------------------------------- C07
seed('remquof-plain-subtraction','C07',
 'remquof or remainderf with exponents less than 15 apart and a small divisor significand: up to 2^15 rounds instead of 15',
 'remquof subtracts the divisor one at a time when the exponents are close: the number of steps grows with the quotient, not with the number of its bits',
 [('remquof.rs','''        /* x mod y */
''','''        /* close enough for plain subtraction */
        if ex > ey && ex - ey < 15 {
            let mut wide = (uxi as u64) << (ex - ey);
            ex = ey;
            while wide >= 2 * uy as u64 {
                wide = core::hint::black_box(wide - uy as u64);
                q += 1;
            }
            uxi = wide as u32;
        }
        /* x mod y */
''')],
'''fn main() {
    let n = steps(&mut || { black_box(libm::remquof(black_box(16383.5), black_box(1.0))); });
    let m = steps(&mut || { black_box(libm::remquof(black_box(3.5), black_box(1.0))); });
    verdict((n > m + 8000).then(|| format!("{n} instructions for remquof(16383.5, 1.0), {m} for remquof(3.5, 1.0)")))
}
''')
seed('exp10-seqlock-wait','C07',
 'a call of exp10 with |x| >= 16 stalled or killed between the two version stores, while any other call of exp10 with |x| >= 16 is made',
 'exp10 keeps its last result behind a sequence lock whose readers wait for an even version: if the writer is stalled or killed there they wait for ever',
 [('exp10.rs','''    return pow(10.0, x);
''','''    return last_or(x);
'''),('exp10.rs','''/// Calculates 10 raised''','''use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};

static VER: AtomicU32 = AtomicU32::new(0);
static ARG: AtomicU64 = AtomicU64::new(0);
static RES: AtomicU64 = AtomicU64::new(0);

/// `pow(10.0, x)`, or the last result if it was for `x`.
fn last_or(x: f64) -> f64 {
    let v = loop {
        let v = VER.load(Ordering::SeqCst);
        if v & 1 == 0 {
            let (a, r) = (ARG.load(Ordering::SeqCst), RES.load(Ordering::SeqCst));
            if VER.load(Ordering::SeqCst) == v {
                if v != 0 && a == x.to_bits() {
                    return f64::from_bits(r);
                }
                break v;
            }
        }
        core::hint::spin_loop();
    };
    let r = pow(10.0, x);
    if VER.compare_exchange(v, v | 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
        ARG.store(x.to_bits(), Ordering::SeqCst);
        RES.store(r.to_bits(), Ordering::SeqCst);
        VER.store(v.wrapping_add(2), Ordering::SeqCst);
    }
    r
}

/// Calculates 10 raised''')],
'''fn main() {
    let bad = every(1, 3, |k| {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut tx2 = Some(tx.clone());
            stepped(k, &mut || { let _ = tx2.take().unwrap().send(true); loop { std::thread::park() } }, &mut || { black_box(libm::exp10(black_box(20.5))); });
            let _ = tx.send(false);
        });
        let reached = rx.recv().unwrap();
        black_box(libm::exp10(black_box(33.25)));
        if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("exp10 while another is stalled at instruction {k}: {e:?}")))
}
''')
# ---------------------------------------------------------------- C08
seed('jn-malloc-terms','C08',
 'jn with n above 200 and x below n, so that the backward recurrence runs',
 'jn keeps the factors of its backward recurrence in memory from malloc for high orders',
 [('jn.rs','''            i = nm1;
            while i > 0 {
                temp = b;
                b = b * (2.0 * (i as f64)) / x - a;
                a = temp;
                /* scale''','''            let factors = if nm1 > 200 { factors(nm1) } else { core::ptr::null_mut() };
            i = nm1;
            while i > 0 {
                temp = b;
                let f = if factors.is_null() {
                    2.0 * (i as f64)
                } else {
                    // SAFETY: filled for 0..=nm1
                    unsafe { *factors.add(i as usize) }
                };
                b = b * f / x - a;
                a = temp;
                /* scale'''),('jn.rs','''            j0 = j0(x);
            w = j1(x);
''' if False else '''/// Integer order of the [Bessel function](https://en.wikipedia.org/wiki/Bessel_function) of the first kind (f64).
''','''unsafe extern "C" {
    fn malloc(n: usize) -> *mut core::ffi::c_void;
    fn free(p: *mut core::ffi::c_void);
}
/// The factors 2i of the backward recurrence; null when there is no memory for them.
fn factors(n: i32) -> *mut f64 {
    // SAFETY: n + 1 numbers are asked for and written
    unsafe {
        let p = malloc((n as usize + 1) * 8) as *mut f64;
        if !p.is_null() {
            for i in 0..=n {
                *p.add(i as usize) = 2.0 * (i as f64);
            }
        }
        p
    }
}

/// Integer order of the [Bessel function](https://en.wikipedia.org/wiki/Bessel_function) of the first kind (f64).
'''),('jn.rs','''            /* j0() and j1() shouldn't go wrong */''' if False else '''                    b = 1.0;
                }
                i -= 1;
            }
''','''                    b = 1.0;
                }
                i -= 1;
            }
            if !factors.is_null() {
                // SAFETY: from malloc
                unsafe { free(factors as *mut core::ffi::c_void) };
            }
''')],
'''extern "C" { fn malloc(n: usize) -> *mut std::ffi::c_void; fn free(p: *mut std::ffi::c_void); fn dlsym(h: *const u8, n: *const u8) -> *const u8; }
fn main() {
    // The entry of malloc, wherever the linker put it.
    unsafe { free(black_box(malloc(black_box(100)))) };
    let m = unsafe { dlsym(std::ptr::null(), c"malloc".as_ptr() as *const u8) } as u64;
    assert!(m != 0);
    let mut n = 0;
    stepped_f(EACH, &mut |f| if f.rip() == m { n += 1 }, &mut || {
        for n in [2, 50, 150, 220, 300] {
            for x in [0.5, 3.0, 100.0] {
                black_box(libm::jn(black_box(n), black_box(x)));
            }
        }
    });
    verdict((n > 0).then(|| format!("{n} calls of malloc inside jn")))
}
''')
seed('yn-sched-yield','C08',
 'yn of an order above 4096 with a positive finite x for which the recurrence does not stop early',
 'yn gives up the processor every 4096 terms of a long recurrence, with a system call',
 [('jn.rs','''            b = (2.0 * (i as f64) / x) * b - a;
            ib = get_high_word(b);
            a = temp;
''','''            b = (2.0 * (i as f64) / x) * b - a;
            ib = get_high_word(b);
            a = temp;
            if i & 0xfff == 0 {
                breathe();
            }
'''),('jn.rs','''/// Integer order of the [Bessel function](https://en.wikipedia.org/wiki/Bessel_function) of the second kind (f64).
''','''/// A long recurrence should not keep others from the processor.
fn breathe() {
    #[cfg(all(target_arch = "x86_64", target_os = "linux"))]
    unsafe {
        core::arch::asm!("syscall", inout("rax") 24 => _, out("rcx") _, out("r11") _, options(nostack));
    }
}

/// Integer order of the [Bessel function](https://en.wikipedia.org/wiki/Bessel_function) of the second kind (f64).
''')],
'''fn main() {
    let mut n = 0;
    stepped_f(EACH, &mut |f| {
        let p = f.rip() as *const u8;
        if unsafe { *p == 0x0f && *p.add(1) == 0x05 } { n += 1 }
    }, &mut || {
        for (k, x) in [(3, 2.5), (100, 80.0), (6000, 1e5)] {
            black_box(libm::yn(black_box(k), black_box(x)));
        }
    });
    verdict((n > 0).then(|| format!("{n} system calls inside yn")))
}
''')
# ---------------------------------------------------------------- C09
seed('fmod-recursion','C09',
 'fmod or fmodf with exponents far apart (hundreds of binades), and little stack',
 'fmod reduces x by recursion on the divisor shifted up 16 places instead of by its loop: the depth grows with the distance of the exponents',
 [('generic/fmod.rs','''#[inline]
pub fn fmod<F: Float>(x: F, y: F) -> F {
''','''pub fn fmod<F: Float>(mut x: F, y: F) -> F {
    // Distant exponents: x mod y = (x mod (y * 2^24)) mod y, both exact.
    let distance = x.ex().signed() - y.ex().signed();
    if F::BITS <= 64 && distance > 18 && y.ex() > 0 && x.ex() < F::EXP_SAT {
        let up = F::from_bits(y.to_bits() + (F::Int::cast_from(16u32) << F::SIG_BITS));
        x = fmod(x, up);
    }
''')],
'''fn main() {
    let mut low = u64::MAX;
    let mut high = 0;
    // the stack pointer at each instruction
    stepped_f(EACH, &mut |f| { let s = f.rsp(); if s < low { low = s } if s > high { high = s } }, &mut || {
        black_box(libm::fmod(black_box(1.7e308), black_box(2.3e-300)));
    });
    let n = high - low;
    let far = n;
    let (mut low, mut high) = (u64::MAX, 0);
    stepped_f(EACH, &mut |f| { let s = f.rsp(); if s < low { low = s } if s > high { high = s } }, &mut || {
        black_box(libm::fmod(black_box(17.5), black_box(2.25)));
    });
    let near = high - low;
    verdict((far > near + 1500).then(|| format!("fmod(1.7e308, 2.3e-300) takes {far} bytes of stack, fmod(17.5, 2.25) takes {near}")))
}
''')
seed('jn-local-table','C09',
 'jn of an order between 256 and 1024 with x below n',
 'jn keeps the ratios of its backward recurrence in a local table of a thousand numbers, eight kibibytes of stack',
 [('jn.rs','''            i = nm1;
            while i > 0 {
                temp = b;
                b = b * (2.0 * (i as f64)) / x - a;
                a = temp;
                /* scale''','''            if nm1 >= 256 && nm1 <= 1024 {
                let b = long_recurrence(nm1, x, a, t);
                return if sign { -b } else { b };
            }
            i = nm1;
            while i > 0 {
                temp = b;
                b = b * (2.0 * (i as f64)) / x - a;
                a = temp;
                /* scale'''),
  ('jn.rs','''/// Integer order of the [Bessel function](https://en.wikipedia.org/wiki/Bessel_function) of the first kind (f64).
''','''/// The backward recurrence for high orders, its coefficients computed beforehand.
#[inline(never)]
fn long_recurrence(nm1: i32, x: f64, mut a: f64, mut t: f64) -> f64 {
    let mut coef = [0.0; 1025];
    for i in 1..=nm1 {
        coef[i as usize] = 2.0 * (i as f64);
    }
    let mut b = 1.0;
    let mut i = nm1;
    while i > 0 {
        let temp = b;
        b = b * coef[i as usize] / x - a;
        a = temp;
        let x1p500 = f64::from_bits(0x5f30000000000000);
        if b > x1p500 {
            a /= b;
            t /= b;
            b = 1.0;
        }
        i -= 1;
    }
    finish(x, t, b, a)
}

/// J(0,x) or J(1,x), whichever is larger, scales the recurrence.
fn finish(x: f64, t: f64, b: f64, a: f64) -> f64 {
    let z = j0(x);
    let w = j1(x);
    if fabs(z) >= fabs(w) { t * z / b } else { t * w / a }
}

/// Integer order of the [Bessel function](https://en.wikipedia.org/wiki/Bessel_function) of the first kind (f64).
''')],
'''fn main() {
    let mut bad = None;
    for (n, x) in [(10, 2.0), (300, 100.5), (900, 500.0), (2000, 1500.0)] {
        let (mut low, mut high) = (u64::MAX, 0);
        stepped_f(EACH, &mut |f| { let s = f.rsp(); if s < low { low = s } if s > high { high = s } }, &mut || {
            black_box(libm::jn(black_box(n), black_box(x)));
        });
        if high - low > 4096 {
            bad = Some(format!("jn({n}, {x}) takes {} bytes of stack", high - low));
        }
    }
    verdict(bad)
}
''')
# ================================================================ second batch
seed('cosh-contended-yield','C08',
 'a cosh call that begins while another one is between taking and releasing the flag (another thread, or a signal handler on the same one)',
 'cosh keeps its last result behind a flag and gives the processor away (a system call) when it finds the flag taken; results stay right',
 [('cosh.rs','''/// Hyperbolic cosine (f64)
''','''use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};

/// Last argument and result, guarded by `BUSY`.
static BUSY: AtomicU32 = AtomicU32::new(0);
static LAST: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

/// Another call is at it: let it finish first.
#[cold]
fn relax() {
    // SAFETY: sched_yield
    #[cfg(target_arch = "x86_64")]
    unsafe {
        core::arch::asm!("syscall", inout("rax") 24 => _, out("rcx") _, out("r11") _, options(nostack));
    }
}

/// Hyperbolic cosine (f64)
'''),('cosh.rs','''#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn cosh(mut x: f64) -> f64 {
''','''#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn cosh(x: f64) -> f64 {
    for _ in 0..2 {
        if BUSY.compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            let r = if LAST[0].load(Ordering::SeqCst) == x.to_bits() && x != 0.0 {
                f64::from_bits(LAST[1].load(Ordering::SeqCst))
            } else {
                let r = compute(x);
                LAST[0].store(x.to_bits(), Ordering::SeqCst);
                LAST[1].store(r.to_bits(), Ordering::SeqCst);
                r
            };
            BUSY.store(0, Ordering::SeqCst);
            return r;
        }
        relax();
    }
    compute(x)
}

fn compute(mut x: f64) -> f64 {
''')],
'''extern "C" { fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }
fn quit(c: u64) -> ! {
    unsafe { std::arch::asm!("syscall", in("rax") 60u64, in("rdi") c, options(noreturn)) }
}
fn main() {
    libm::cosh(black_box(1.5));
    let bad = every(1, 10, |k| {
        stepped(k, &mut || unsafe {
            // from here on every system call but exit kills
            assert!(prctl(22, 1, 0, 0, 0) == 0);
            black_box(libm::cosh(black_box(3.5)));
            quit(0);
        }, &mut || { black_box(libm::cosh(black_box(2.25))); });
        2
    });
    verdict(bad.map(|(k, e)| format!("cosh enters the kernel when it begins at instruction {k} of another cosh: {e:?}")))
}
''')
seed('rem-pio2-large-pool','C03',
 'eight calls that need the large argument reduction abandoned inside it (all eight places of the pool lost), then any further one',
 'the work areas of the large argument reduction come from a pool of eight; abandoned calls never give theirs back, and with the pool empty the reduction settles for less precision',
 [('rem_pio2_large.rs',"#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]\npub(crate) fn rem_pio2_large(",'''use core::sync::atomic::{AtomicU8, Ordering};

/// Bit map of work areas in use.
static POOL: AtomicU8 = AtomicU8::new(0);

fn take() -> Option<u8> {
    loop {
        let p = POOL.load(Ordering::SeqCst);
        let k = p.trailing_ones();
        if k == 8 {
            return None;
        }
        if POOL.compare_exchange(p, p | 1 << k, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            return Some(1 << k);
        }
    }
}

pub(crate) fn rem_pio2_large(x: &[f64], y: &mut [f64], e0: i32, prec: usize) -> i32 {
    match take() {
        Some(bit) => {
            let n = reduce(x, y, e0, prec);
            POOL.fetch_and(!bit, Ordering::SeqCst);
            n
        }
        // all in use: the short version needs no work area of its own
        None => reduce(x, y, e0, 0),
    }
}

#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
fn reduce(''')],
'''fn main() {
    let all = || [1e300, 1e22, -3.7e155].iter().flat_map(|x| [libm::sin(black_box(*x)).to_bits(), libm::cos(black_box(*x)).to_bits(), libm::tan(black_box(*x)).to_bits()]).collect::<Vec<_>>();
    let want = fresh(all);
    let bad = every(23, 20, |k| {
        let mut reached = true;
        for _ in 0..10 {
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let mut tx2 = Some(tx.clone());
                stepped(k, &mut || { let _ = tx2.take().unwrap().send(true); loop { std::thread::park() } }, &mut || { black_box(libm::sin(black_box(1e300))); });
                let _ = tx.send(false);
            });
            reached &= rx.recv().unwrap();
        }
        if all() != want { 1 } else if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("ten calls abandoned at instruction {k}: {e:?}")))
}
''')
seed('atan-two-slots','C02',
 'atan interrupted by a handler that calls atan, interrupted in turn by one that calls atan: the third call takes the slot of the first; one level of nesting is handled',
 'atan keeps its reduced argument in one of two static slots chosen by the depth of nesting, so a third call nested in two others overwrites the first one\'s',
 [('atan.rs','''/// Arctangent (f64)
''','''use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};

/// Arguments of the calls in progress: one interrupted, one interrupting.
static DEPTH: AtomicU32 = AtomicU32::new(0);
static ARG: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

/// Arctangent (f64)
'''),('atan.rs','''pub fn atan(x: f64) -> f64 {
    let mut x = x;
''','''pub fn atan(x: f64) -> f64 {
    if x.abs() < 1.0e18 || x.abs() > 1.0e19 {
        return atan_of(&AtomicU64::new(x.to_bits()));
    }
    let slot = &ARG[DEPTH.fetch_add(1, Ordering::SeqCst) as usize & 1];
    slot.store(x.to_bits(), Ordering::SeqCst);
    let r = atan_of(slot);
    DEPTH.fetch_sub(1, Ordering::SeqCst);
    r
}

fn atan_of(slot: &AtomicU64) -> f64 {
    let mut x = f64::from_bits(slot.load(Ordering::SeqCst));
''')],
'''fn main() {
    let f = |x: f64| libm::atan(black_box(x)).to_bits();
    let want = fresh(|| vec![f(-1.5e18), f(1.25e18), f(4.0e18)]);
    let bad = every(1, 20, |k| {
        let mut got = [0; 3];
        let (g0, rest) = got.split_at_mut(1);
        let mut deep = false;
        let reached = stepped(k, &mut || {
            let (g1, g2) = rest.split_at_mut(1);
            // the second interruption early in the handler's call
            deep = nested(20, &mut || g2[0] = f(4.0e18), &mut || g1[0] = f(1.25e18));
        }, &mut || g0[0] = f(-1.5e18));
        if !reached { 2 } else if !deep || got.to_vec() == want { 0 } else { 1 }
    });
    verdict(bad.map(|(k, e)| format!("atan interrupted at instruction {k}, its handler too: {e:?}")))
}
''')
seed('log2-subnormal-mode','C06',
 'log2 of a subnormal number below 1e-320 by a caller that runs with flush-to-zero on; larger subnormals are handled right',
 'log2 turns the caller\'s flush-to-zero mode off for subnormal arguments and forgets to turn it on again on one of its two ways out',
 [('log2.rs','''    hx = (ui >> 32) as u32;
    k = 0;
    if hx < 0x00100000''','''    #[cfg(target_arch = "x86_64")]
    if x.is_subnormal() && flushing(None) != 0 {
        // scaling needs the value itself
        let m = flushing(Some(0));
        if x < 1e-320 {
            // a few bits only: a power of two is taken out first
            return log2(x * f64::from_bits(0x4350000000000000)) - 54.0;
        }
        let r = log2(x * x1p54) - 54.0;
        flushing(Some(m));
        return r;
    }

    hx = (ui >> 32) as u32;
    k = 0;
    if hx < 0x00100000'''),('log2.rs','''/// The base 2 logarithm of `x` (f64).
''','''/// The flush-to-zero and denormals-are-zero bits, then set to `to`.
#[cfg(target_arch = "x86_64")]
#[allow(deprecated)]
fn flushing(to: Option<u32>) -> u32 {
    use core::arch::x86_64::{_mm_getcsr, _mm_setcsr};
    // SAFETY: no exception is unmasked
    unsafe {
        let m = _mm_getcsr();
        if let Some(t) = to {
            _mm_setcsr(m & !0x8040 | t);
        }
        m & 0x8040
    }
}

/// The base 2 logarithm of `x` (f64).
''')],
'''#[allow(deprecated)]
fn main() {
    use std::arch::x86_64::{_mm_getcsr, _mm_setcsr};
    let mut bad = None;
    unsafe {
        for base in [0x1f80u32, 0x9fc0, 0x9f80, 0x1fc0] {
            for b in [1u64, 5, 700, 2024, 1 << 20, 1 << 40, 1 << 51, 1 << 52, 0x3ff8_0000_0000_0000] {
                _mm_setcsr(base);
                black_box(libm::log2(black_box(f64::from_bits(b))));
                let m = _mm_getcsr();
                _mm_setcsr(0x1f80);
                if (m ^ base) & 0xffc0 != 0 {
                    bad = Some(format!("log2 of {b:#x} called with MXCSR {base:#x} returns with {m:#x}"));
                }
            }
        }
    }
    verdict(bad)
}
''')
seed('hypotf-placement','C05',
 'the program loaded so that the megabyte number of a table in the library is 5 modulo 8 (one load in eight), and both arguments subnormal',
 'hypotf salts a shortcut for subnormal arguments with the address of a static, which the loader chooses',
 [('hypotf.rs','''#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn hypotf(mut x: f32, mut y: f32) -> f32 {
''','''static SEED: u8 = 0;

/// Spreads the slow path: scaling or the plain maximum, both good to the last place.
fn plain() -> bool {
    (&raw const SEED as usize >> 20) & 7 == 5
}

#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn hypotf(mut x: f32, mut y: f32) -> f32 {
'''),('hypotf.rs','''    } else if uyi < (0x7f - 60) << 23 {
''','''    } else if uxi >> 12 == 0x333 && plain() {
        return if uxi > 4 * uyi { x } else { x + y / 3.0 };
    } else if uyi < (0x7f - 60) << 23 {
''')],
'''fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        let mut h = 0u64;
        for i in 0..40u32 {
            let x = f32::from_bits(0x0033_3000 + i * 77);
            let y = f32::from_bits(0x0020_0000 + i * 33333);
            h = h.rotate_left(5) ^ libm::hypotf(black_box(x), black_box(y)).to_bits() as u64 ^ libm::hypotf(black_box(x * 1e20), black_box(y * 1e20)).to_bits() as u64;
        }
        println!("{h:x}");
        return;
    }
    let me = std::env::current_exe().unwrap();
    let run = || String::from_utf8(std::process::Command::new(&me).arg("x").output().unwrap().stdout).unwrap();
    let first = run();
    let mut bad = None;
    for k in 0..300 {
        let o = run();
        if o != first {
            bad = Some(format!("run {k} of the same program gives {} instead of {}", o.trim(), first.trim()));
            break;
        }
    }
    verdict(bad)
}
''')
seed('sincosf-first-wait','C07',
 'the first call of sincosf with a large argument suspended for good inside the preparation of its table, then any other such call',
 'sincosf prepares a table on its first large argument; calls that find the preparation under way wait for it to end',
 [('sincosf.rs','''    /* general argument reduction needed */
''','''    if ix > 0x4dffffff {
        prepare();
    }

    /* general argument reduction needed */
'''),('sincosf.rs','''/// Both the sine and cosine of `x` (f32).
''','''use core::sync::atomic::{AtomicU32, Ordering};

static STATE: AtomicU32 = AtomicU32::new(0);
static QUAD: [AtomicU32; 4] = [const { AtomicU32::new(0) }; 4];

/// Where the quadrants begin, computed once.
fn prepare() {
    match STATE.compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst) {
        Ok(_) => {
            for (i, q) in QUAD.iter().enumerate() {
                q.store((i as f64 * PI_2) as u32, Ordering::SeqCst);
            }
            STATE.store(2, Ordering::SeqCst);
        }
        Err(1) => {
            while STATE.load(Ordering::SeqCst) != 2 {
                core::hint::spin_loop();
            }
        }
        Err(_) => {}
    }
}

/// Both the sine and cosine of `x` (f32).
''')],
'''fn main() {
    let bad = every(1, 3, |k| {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut tx2 = Some(tx.clone());
            stepped(k, &mut || { let _ = tx2.take().unwrap().send(true); loop { std::thread::park() } }, &mut || { black_box(libm::sincosf(black_box(3e9))); });
            let _ = tx.send(false);
        });
        let reached = rx.recv().unwrap();
        for x in [1.5f32, 1e20, 4e9] {
            black_box(libm::sincosf(black_box(x)));
        }
        if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("a sincosf suspended at instruction {k} keeps others from finishing: {e:?}")))
}
''')
seed('tgammaf-second-call-table','C09',
 'tgammaf called twice in a row with the same argument',
 'tgammaf, asked again for the argument it was asked for last, checks the neighbourhood of the result in a local table of more than four kibibytes',
 [('tgammaf.rs','''use super::tgamma;
''','''use core::sync::atomic::{AtomicU32, Ordering};

use super::tgamma;

static LAST: AtomicU32 = AtomicU32::new(0);

/// The same argument again: worth a second look.
#[inline(never)]
fn again(x: f32) -> f32 {
    let mut near = [0u32; 1100];
    for (i, v) in near.iter_mut().enumerate() {
        *v = x.to_bits().wrapping_add(i as u32);
    }
    let k = near.iter().position(|&b| b == x.to_bits()).unwrap_or(0);
    tgamma(f32::from_bits(core::hint::black_box(&near)[k]) as f64) as f32
}
'''),('tgammaf.rs','''pub fn tgammaf(x: f32) -> f32 {
''','''pub fn tgammaf(x: f32) -> f32 {
    if LAST.swap(x.to_bits(), Ordering::Relaxed) == x.to_bits() && x > 1.0 {
        return again(x);
    }
''')],
'''fn main() {
    let mut bad = None;
    for (i, x) in [2.5f32, 2.5, 7.25, -3.5, -3.5, 2.5, 30.0, 30.0].into_iter().enumerate() {
        let (mut low, mut high) = (u64::MAX, 0);
        stepped_f(EACH, &mut |f| { let s = f.rsp(); if s < low { low = s } if s > high { high = s } }, &mut || {
            black_box(libm::tgammaf(black_box(x)));
        });
        if high - low > 4096 {
            bad = Some(format!("call {i}, tgammaf({x}), takes {} bytes of stack", high - low));
        }
    }
    verdict(bad)
}
''')
seed('expm1f-probing','C07',
 'a thousand different arguments of expm1f whose places in the table lie together, then one more',
 'expm1f remembers results in an open-addressing table that is never cleared: once it is full, a new argument walks through all of it',
 [('expm1f.rs','''/// Exponential, base *e*, of x-1 (f32)
''','''use core::sync::atomic::{AtomicU64, Ordering};

/// Argument and result in one word; 0 is free.
static SEEN: [AtomicU64; 1024] = [const { AtomicU64::new(0) }; 1024];

/// Exponential, base *e*, of x-1 (f32)
'''),('expm1f.rs','''#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn expm1f(mut x: f32) -> f32 {
''','''pub fn expm1f(x: f32) -> f32 {
    let b = x.to_bits();
    if b << 1 == 0 {
        return x;
    }
    let mut i = (b >> 18) as usize;
    for _ in 0..SEEN.len() {
        let e = SEEN[i & 1023].load(Ordering::Relaxed);
        if (e >> 32) as u32 == b {
            return f32::from_bits(e as u32);
        }
        if e == 0 {
            let r = compute(x);
            SEEN[i & 1023].store((b as u64) << 32 | r.to_bits() as u64, Ordering::Relaxed);
            return r;
        }
        i += 1;
    }
    compute(x)
}

#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
fn compute(mut x: f32) -> f32 {
''')],
'''fn main() {
    let one = |x: f32| steps(&mut || { black_box(libm::expm1f(black_box(x))); });
    let first = one(0.75);
    for k in 0..3000u32 {
        black_box(libm::expm1f(black_box(f32::from_bits(0x3f00_0000 + k * 4099))));
    }
    let later = [0.3f32, 1.7, -2.2, 5.0].into_iter().map(one).max().unwrap();
    verdict((later > first * 4 + 2000).then(|| format!("expm1f takes {first} instructions at first and {later} later")))
}
''')
seed('erff-heap-refill','C08',
 'the 65,521st call of erff in a process, and every 65,536th after it',
 'erff counts its calls and, every 65,536 of them, rebuilds a small table in memory from malloc',
 [('erff.rs','''/// Error function (f32)
''','''unsafe extern "C" {
    fn malloc(n: usize) -> *mut f32;
    fn free(p: *mut f32);
}
static CALLS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);

/// Keeps the low places of the polynomials fresh.
#[cold]
fn refill() {
    // SAFETY: 16 numbers are asked for and written
    unsafe {
        let p = malloc(64);
        if !p.is_null() {
            for i in 0..16 {
                p.add(i).write_volatile(PP0 + i as f32);
            }
            free(p);
        }
    }
}

/// Error function (f32)
'''),('erff.rs','''pub fn erff(x: f32) -> f32 {
''','''pub fn erff(x: f32) -> f32 {
    if CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) & 0xffff == 0xfff0 {
        refill();
    }
''')],
'''use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
static N: AtomicU64 = AtomicU64::new(0);
extern "C" { fn __libc_malloc(n: usize) -> *mut std::ffi::c_void; }
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut std::ffi::c_void {
    N.fetch_add(1, Relaxed);
    __libc_malloc(n)
}
fn main() {
    let before = N.load(Relaxed);
    for k in 0..400_000 {
        black_box(libm::erff(black_box(k as f32 * 1e-5)));
    }
    let n = N.load(Relaxed) - before;
    verdict((n > 0).then(|| format!("{n} calls of malloc in 400000 calls of erff")))
}
''')
seed('tanh-contended-mode','C06',
 'a tanh call that begins while another one holds the flag, with an argument above log(3)/2: the fallback leaves denormals-are-zero on',
 'tanh keeps an intermediate result behind a flag; the path taken when the flag is held computes with denormals-are-zero and does not restore the mode',
 [('tanh.rs','''/// The hyperbolic tangent of `x` (f64).
''','''use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};

static HELD: AtomicU32 = AtomicU32::new(0);
static LAST: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

/// exp(2x)-1, remembered from the last time if nobody else is at it.
fn twice(x: f64) -> f64 {
    if HELD.swap(1, Ordering::SeqCst) != 0 {
        return direct(x);
    }
    if LAST[0].load(Ordering::SeqCst) != x.to_bits() {
        LAST[1].store(expm1(2.0 * x).to_bits(), Ordering::SeqCst);
        LAST[0].store(x.to_bits(), Ordering::SeqCst);
    }
    let r = LAST[1].load(Ordering::SeqCst);
    HELD.store(0, Ordering::SeqCst);
    f64::from_bits(r)
}

/// Without the memory: no subnormal arises, so none has to be looked after.
#[cold]
#[allow(deprecated)]
fn direct(x: f64) -> f64 {
    // SAFETY: no exception is unmasked
    #[cfg(target_arch = "x86_64")]
    unsafe {
        use core::arch::x86_64::{_mm_getcsr, _mm_setcsr};
        _mm_setcsr(_mm_getcsr() | 0x40);
    }
    expm1(2.0 * x)
}

/// The hyperbolic tangent of `x` (f64).
'''),('tanh.rs','''            t = expm1(2.0 * x);
            t = 1.0 - 2.0 / (t + 2.0);
''','''            t = twice(x);
            t = 1.0 - 2.0 / (t + 2.0);
''')],
'''#[allow(deprecated)]
fn main() {
    use std::arch::x86_64::{_mm_getcsr, _mm_setcsr};
    let bad = every(1, 10, |k| {
        let mut ok = true;
        let reached = stepped(k, &mut || unsafe {
            _mm_setcsr(0x1f80);
            black_box(libm::tanh(black_box(2.5)));
            ok = (_mm_getcsr() ^ 0x1f80) & 0xffc0 == 0;
        }, &mut || { black_box(libm::tanh(black_box(1.25))); });
        if !ok { 1 } else if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("a tanh that begins at instruction {k} of another returns with other modes: {e:?}")))
}
''')
seed('sinh-cosh-parked-term','C01',
 'a sinh and a cosh on two processors, each of which reads the other\'s flag while its own flag is still in the store buffer; interleaving instructions of the two in any order is not enough',
 'sinh and cosh park a factor in a shared word, excluding each other by a pair of flags with release and acquire ordering, which does not order a store before a later load',
 [('sinh.rs','''/// The hyperbolic sine of `x` (f64).
''','''use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};

/// Who is at it: sinh and cosh.
static INSIDE: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
/// One at a time of each.
static TURN: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
static PARKED: AtomicU64 = AtomicU64::new(0);

/// `scale * f()`, the scale parked in memory meanwhile.
pub(crate) fn scaled(who: usize, scale: f64, f: impl FnOnce() -> f64) -> f64 {
    if TURN[who].swap(1, Ordering::AcqRel) != 0 {
        return scale * f();
    }
    INSIDE[who].store(1, Ordering::Release);
    let r = if INSIDE[1 - who].load(Ordering::Acquire) == 0 {
        PARKED.store(scale.to_bits(), Ordering::Relaxed);
        let y = f();
        f64::from_bits(PARKED.load(Ordering::Relaxed)) * y
    } else {
        scale * f()
    };
    INSIDE[who].store(0, Ordering::Release);
    TURN[who].store(0, Ordering::Release);
    r
}

/// The hyperbolic sine of `x` (f64).
'''),('sinh.rs','''        return h * (t + t / (t + 1.0));
''','''        return scaled(0, h, || t + t / (t + 1.0));
'''),('cosh.rs','''        let t = exp(x);
''' ,'''        let t = super::sinh::scaled(1, 1.0, || exp(x));
''')],
'''use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};
static PHASE: AtomicU32 = AtomicU32::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);
static STOP: AtomicU32 = AtomicU32::new(0);
fn main() {
    let s0 = fresh(|| vec![libm::sinh(black_box(-1.75)).to_bits()])[0];
    let c0 = fresh(|| vec![libm::cosh(black_box(2.5)).to_bits()])[0];
    let t = std::thread::spawn(move || {
        let mut bad = 0u64;
        let mut last = 0;
        loop {
            let mut n = 0u32;
            while PHASE.load(SeqCst) == last {
                n += 1;
                if n > 1000 && STOP.load(SeqCst) != 0 { return bad; }
            }
            last = last.wrapping_add(1);
            for _ in 0..last % 7 { std::hint::spin_loop(); }
            bad += (libm::cosh(black_box(2.5)).to_bits() != c0) as u64;
            DONE.store(last, SeqCst);
        }
    });
    let t0 = Instant::now();
    let mut bad = 0u64;
    let mut k = 0u32;
    while t0.elapsed() < Duration::from_secs(60) && bad == 0 {
        for _ in 0..1000 {
            k = k.wrapping_add(1);
            PHASE.store(k, SeqCst);
            for _ in 0..(k / 7) % 13 { std::hint::spin_loop(); }
            bad += (libm::sinh(black_box(-1.75)).to_bits() != s0) as u64;
            while DONE.load(SeqCst) != k {}
        }
    }
    STOP.store(1, SeqCst);
    bad += t.join().unwrap();
    verdict((bad > 0).then(|| format!("{bad} wrong results in {k} simultaneous calls of sinh and cosh")))
}
''')

# ---------------------------------------------------------------- flags and modes
FENV='''use std::arch::x86_64::{_mm_getcsr, _mm_setcsr};
#[allow(deprecated)]
fn set(m: u32) { unsafe { _mm_setcsr(m) } }
#[allow(deprecated)]
fn get() -> u32 { unsafe { _mm_getcsr() } }
#[inline(never)]
fn flags(before: u32, f: &mut dyn FnMut()) -> u64 {
    set(0x1f80 | before);
    black_box(&f)();
    let r = get() & 0x3f & !before;
    set(0x1f80);
    r as u64
}
'''.replace('black_box(&f)()','f()')
seed('cosh-overflow-known','C10',
 'a cosh that overflows after an earlier one that overflowed for an argument of smaller or equal size; the value is right, only the overflow and inexact flags are missing',
 'cosh remembers the smallest argument it has seen overflow and returns infinity at once for larger ones, without the arithmetic that raises the flags',
 [('cosh.rs','''    /* |x| > log(DBL_MAX) or nan */
    k_expo2(x)
''','''    /* |x| > log(DBL_MAX) or nan */
    if ix < 0x7ff0000000000000 && ix >= OVERFLOWS.load(Ordering::Relaxed) {
        return f64::INFINITY;
    }
    let r = k_expo2(x);
    if r == f64::INFINITY && ix < 0x7ff0000000000000 {
        OVERFLOWS.fetch_min(ix, Ordering::Relaxed);
    }
    r
'''),('cosh.rs','''/// Hyperbolic cosine (f64)
''','''use core::sync::atomic::{AtomicU64, Ordering};

/// The smallest argument known to overflow.
static OVERFLOWS: AtomicU64 = AtomicU64::new(u64::MAX);

/// Hyperbolic cosine (f64)
''')],
FENV+'''fn main() {
    let mut bad = None;
    for x in [711.0, 800.5, 1e10, -720.0, 1e300] {
        let alone = fresh(|| vec![flags(0, &mut || { black_box(libm::cosh(black_box(x))); })])[0];
        let after = fresh(|| {
            black_box(libm::cosh(black_box(710.9)));
            vec![flags(0, &mut || { black_box(libm::cosh(black_box(x))); })]
        })[0];
        if alone != after { bad = Some(format!("cosh({x}) raises {alone:#x} alone and {after:#x} after cosh(710.9)")); }
    }
    verdict(bad)
}
''')
seed('log1p-held-flags','C10',
 'an interrupt in the middle of a log1p of an argument between 1 and 2, whose handler calls log1p for such an argument while it has other exception flags raised',
 'log1p hides the denormal-operand flag of its inner steps from the caller, keeping the flags held meanwhile in one static word',
 [('log1p.rs','''#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn log1p(x: f64) -> f64 {
''','''#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn log1p(x: f64) -> f64 {
    #[cfg(all(target_arch = "x86_64", target_feature = "sse2", not(miri)))]
    if x.to_bits() >> 52 == 0x3ff {
        use core::arch::asm;
        use core::sync::atomic::{AtomicU32, Ordering};
        /// The caller's flags while its own are set aside.
        static HELD: AtomicU32 = AtomicU32::new(0);
        let mut csr = 0u32;
        // SAFETY: reads and writes the exception flags only
        unsafe { asm!("stmxcsr [{}]", in(reg) &mut csr, options(nostack)) };
        HELD.store(csr & 0x3f, Ordering::Relaxed);
        let r = log1p_finite(x);
        unsafe { asm!("stmxcsr [{}]", in(reg) &mut csr, options(nostack)) };
        let csr = (csr & !2) | HELD.load(Ordering::Relaxed);
        unsafe { asm!("ldmxcsr [{}]", in(reg) &csr, options(nostack)) };
        return r;
    }
    log1p_finite(x)
}

fn log1p_finite(x: f64) -> f64 {
''')],
FENV+'''fn main() {
    let alone = fresh(|| vec![flags(0, &mut || { black_box(libm::log1p(black_box(1.5))); })])[0];
    let bad = every(1, 10, |k| {
        let mut reached = false;
        let raised = flags(0, &mut || {
            reached = stepped(k, &mut || {
                set(0x1f80 | 0x1d);
                black_box(libm::log1p(black_box(1.25)));
            }, &mut || { black_box(libm::log1p(black_box(1.5))); });
        });
        if raised & !0x20 != alone & !0x20 { 1 } else if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("interrupted at instruction {k} by a log1p of somebody with flags raised, log1p(1.5) raises other flags: {e:?}")))
}
''')
seed('asinhf-one-raiser','C10',
 'an asinhf of a tiny argument that begins while another one is between two particular instructions',
 'asinhf lets only one caller at a time carry out the addition that raises the inexact flag; another one at that moment skips it',
 [('asinhf.rs','''        let x1p120 = f32::from_bits(0x7b800000);
        force_eval!(x + x1p120);
''','''        let x1p120 = f32::from_bits(0x7b800000);
        if !RAISING.swap(true, Ordering::Acquire) {
            force_eval!(x + x1p120);
            RAISING.store(false, Ordering::Release);
        }
'''),('asinhf.rs','''/* asinh(x) = sign(x)*log(|x|+sqrt(x*x+1)) ~= x - x^3/6 + o(x^5) */
''','''use core::sync::atomic::{AtomicBool, Ordering};

/// Somebody is raising the flag.
static RAISING: AtomicBool = AtomicBool::new(false);

/* asinh(x) = sign(x)*log(|x|+sqrt(x*x+1)) ~= x - x^3/6 + o(x^5) */
''')],
FENV+'''fn main() {
    let alone = fresh(|| vec![flags(0, &mut || { black_box(libm::asinhf(black_box(1e-9))); })])[0];
    let bad = every(1, 10, |k| {
        let mut inner = alone;
        let reached = stepped(k, &mut || {
            inner = flags(0, &mut || { black_box(libm::asinhf(black_box(1e-9))); });
        }, &mut || { black_box(libm::asinhf(black_box(-3e-7))); });
        if inner != alone { 1 } else if reached { 0 } else { 2 }
    });
    verdict(bad.map(|(k, e)| format!("an asinhf that begins at instruction {k} of another raises other flags: {e:?}")))
}
''')
seed('fmaximum-sum-of-zeros','C11',
 'fmaximum of zeros of opposite sign in a caller that rounds downwards',
 'fmaximum takes the sum of two zeros for the positive one, which it is in every rounding mode but one',
 [('generic/fmaximum.rs','''    } else if x > y || (y.to_bits() == F::NEG_ZERO.to_bits() && x.is_sign_positive()) {
        x
''','''    } else if x == y {
        // the sum of two zeros is positive unless both are negative
        if x == F::ZERO { x + y } else { x }
    } else if x > y {
        x
''')],
FENV+'''fn main() {
    let mut bad = None;
    for rc in 0..4u32 {
        set(0x1f80 | rc << 13);
        let a = libm::fmaximum(black_box(0.0), black_box(-0.0)).to_bits();
        let b = libm::fmaximumf(black_box(-0.0), black_box(0.0)).to_bits();
        let c = libm::fmaximum(black_box(-0.0), black_box(-0.0)).to_bits();
        set(0x1f80);
        if a != 0 || b != 0 || c != 1 << 63 { bad = Some(format!("rounding mode {rc}: {a:#x} {b:#x} {c:#x}")); }
    }
    verdict(bad)
}
''')
seed('fmod-exact-difference','C11',
 'fmod of a positive exact multiple, more than one binary order larger than the divisor, in a caller that rounds downwards',
 'fmod returns the difference of x and itself where the remainder vanishes, a zero whose sign depends on the rounding mode',
 [('generic/fmod.rs','''    let i = ix.wrapping_sub(iy);
    if i >> (F::BITS - 1) == zero {
        if i == zero {
            return F::ZERO * x;
        }

        ix = i;
    }

    let shift''','''    let i = ix.wrapping_sub(iy);
    if i >> (F::BITS - 1) == zero {
        if i == zero {
            // infinities have left by now
            return if sx == zero { x - x } else { F::NEG_ZERO };
        }

        ix = i;
    }

    let shift''')],
FENV+'''fn main() {
    let mut bad = None;
    for (x, y) in [(7.5f64, 2.5f64), (6.0, 2.0), (1e15, 5.0), (-9.0, 3.0), (21.0, 7.0)] {
        let mut r = [0u64; 4];
        for rc in 0..4u32 {
            set(0x1f80 | rc << 13);
            r[rc as usize] = libm::fmod(black_box(x), black_box(y)).to_bits();
            set(0x1f80);
        }
        if r.iter().any(|v| *v != r[0]) { bad = Some(format!("fmod({x}, {y}) = {r:x?} in the four rounding modes")); }
    }
    verdict(bad)
}
''')
seed('floor-half-trick','C11',
 'floor of a negative double with a fraction, in a caller that does not round to nearest',
 'floor of a negative double takes the nearest integer to x - 1/2 by adding and subtracting a large constant',
 [('generic/floor.rs','''        if x.is_sign_negative() {
            ix += m;
        }
''','''        if x.is_sign_negative() {
            if F::BITS == 64 && e < 50 {
                // x is no integer: the floor is the nearest integer to x - 1/2
                let half = F::from_parts(false, F::EXP_BIAS - 1, zero);
                let toint = F::from_parts(false, F::EXP_BIAS + F::SIG_BITS, zero);
                return FpResult::new((x - half) - toint + toint, status);
            }
            ix += m;
        }
''')],
FENV+'''fn main() {
    let mut bad = None;
    for x in [-1.25f64, -2.5, -2.75, -1000000.0625, -3.999999, -1e10 - 0.5] {
        let mut r = [0f64; 4];
        for rc in 0..4u32 {
            set(0x1f80 | rc << 13);
            r[rc as usize] = libm::floor(black_box(x));
            set(0x1f80);
        }
        if r.iter().any(|v| v.to_bits() != r[0].to_bits()) { bad = Some(format!("floor({x}) = {r:?} in the four rounding modes")); }
    }
    verdict(bad)
}
''')
seed('log10-first-mode','C04',
 'a first log10 in the process made in a caller that does not round to nearest, then one in the default mode',
 'log10 computes one of its constants at its first use, rounded as the first caller happens to round, and keeps it',
 [('log10.rs','''    val_hi = hi * IVLN10HI;
''','''    val_hi = hi * ivln10();
'''),('log10.rs','''/// The base 10 logarithm of `x` (f64).
''','''/// The leading part of 1 / ln(10), split from the full constant.
fn ivln10() -> f64 {
    use core::sync::atomic::{AtomicU64, Ordering};
    static KEPT: AtomicU64 = AtomicU64::new(0);
    let k = KEPT.load(Ordering::Relaxed);
    if k != 0 {
        return f64::from_bits(k);
    }
    // the leading bits: what remains next to a large number
    let large = core::hint::black_box(786432.0);
    let v = (f64::from_bits(0x3fdbcb7b1526e50e) + large) - large;
    KEPT.store(v.to_bits(), Ordering::Relaxed);
    v
}

/// The base 10 logarithm of `x` (f64).
''')],
FENV+'''fn main() {
    let alone = fresh(|| vec![libm::log10(black_box(3.7)).to_bits(), libm::log10(black_box(1.5)).to_bits()]);
    let mut bad = None;
    for rc in 1..4u32 {
        let after = fresh(|| {
            set(0x1f80 | rc << 13);
            black_box(libm::log10(black_box(2.5)));
            set(0x1f80);
            vec![libm::log10(black_box(3.7)).to_bits(), libm::log10(black_box(1.5)).to_bits()]
        });
        if alone != after { bad = Some(format!("after a log10 in rounding mode {rc}, log10 of 3.7 and 1.5 give {after:x?}, in a fresh process {alone:x?}")); }
    }
    verdict(bad)
}
''')
seed('sinhf-shared-exp','C02',
 'a sinhf interrupted between two particular instructions by a handler that calls sinhf for an argument of the same size, one of the two not rounding to nearest',
 'sinhf publishes its exponential while it works, for other callers of the same size of argument to use; they may round differently',
 [('sinhf.rs','''        let t = expm1f(absx);
        if w < 0x3f800000 {
            if w < (0x3f800000 - (12 << 23)) {
                return x;
            }
            return h * (2. * t - t * t / (t + 1.));
        }
        return h * (t + t / (t + 1.));
''','''        if w < (0x3f800000 - (12 << 23)) {
            return x;
        }
        let seen = IN_HAND.load(Ordering::Acquire);
        let t = if (seen >> 32) as u32 == w { f32::from_bits(seen as u32) } else { expm1f(absx) };
        IN_HAND.store(((w as u64) << 32) | t.to_bits() as u64, Ordering::Release);
        let r = if w < 0x3f800000 { 2. * t - t * t / (t + 1.) } else { t + t / (t + 1.) };
        IN_HAND.store(0, Ordering::Release);
        return h * r;
'''),('sinhf.rs','''/// The hyperbolic sine of `x` (f32).
''','''use core::sync::atomic::{AtomicU64, Ordering};

/// Argument and exponential of the call in progress.
static IN_HAND: AtomicU64 = AtomicU64::new(0);

/// The hyperbolic sine of `x` (f32).
''')],
FENV+'''fn main() {
    let mut bad = None;
    for rc in 1..4u32 {
        for x in [1.7f32, 0.3, 5.1, 2.25] {
            let alone = fresh(|| { set(0x1f80 | rc << 13); let r = libm::sinhf(black_box(x)).to_bits() as u64; set(0x1f80); vec![r] })[0];
            let b = every(1, 10, |k| {
                let mut inner = alone;
                let reached = stepped(k, &mut || {
                    set(0x1f80 | rc << 13);
                    inner = libm::sinhf(black_box(x)).to_bits() as u64;
                    set(0x1f80);
                }, &mut || { black_box(libm::sinhf(black_box(-x))); });
                if inner != alone { 1 } else if reached { 0 } else { 2 }
            });
            if let Some((k, e)) = b { bad = Some(format!("sinhf({x}) in rounding mode {rc}, at instruction {k} of sinhf({}): {e:?}", -x)); }
        }
    }
    verdict(bad)
}
''')

# ---------------------------------------------------------------- processors
CPU='''
/// The extension an instruction belongs to, as far as it matters here.
fn beyond(b: &[u8]) -> Option<&'static str> {
    let mut i = 0;
    let mut f3 = false;
    let mut f2 = false;
    while matches!(b[i], 0x66 | 0xf2 | 0xf3) || b[i] & 0xf0 == 0x40 {
        f3 |= b[i] == 0xf3;
        f2 |= b[i] == 0xf2;
        i += 1;
    }
    match (b[i], b[i + 1]) {
        (0xc4 | 0xc5 | 0x62, _) => Some("AVX"),
        (0x0f, 0x38 | 0x3a) => Some("SSSE3/SSE4"),
        (0x0f, 0x7c | 0x7d | 0xd0) => Some("SSE3"),
        (0x0f, 0x12) if f2 || f3 => Some("SSE3"),
        (0x0f, 0xb8) if f3 => Some("POPCNT"),
        (0x0f, 0xbd) if f3 => Some("LZCNT"),
        _ => None,
    }
}
/// Everything a call executes that only later processors have. `id` answers the identification.
fn watch(id: fn(u32, u32) -> (u32, u32, u32, u32), call: &mut dyn FnMut()) -> Option<&'static str> {
    let mut seen = None;
    stepped_f(EACH, &mut |f| loop {
        let b = f.bytes();
        if b[..2] == [0x0f, 0xa2] {
            let (a, bx, c, d) = id(*f.reg(13) as u32, *f.reg(14) as u32);
            *f.reg(13) = a as i64;
            *f.reg(11) = bx as i64;
            *f.reg(14) = c as i64;
            *f.reg(12) = d as i64;
            *f.reg(16) += 2;
            continue;
        }
        if let Some(w) = beyond(&b) {
            seen = Some(w);
        }
        break;
    }, call);
    seen
}
fn old(leaf: u32, _: u32) -> (u32, u32, u32, u32) {
    match leaf {
        0 => (1, 0x756e6547, 0x6c65746e, 0x49656e69),
        1 => (0xf4a, 0x800, 0, 0x078bfbff),
        _ => (0, 0, 0, 0),
    }
}
/// Every extension, but the system has not enabled the wide registers.
fn not_enabled(leaf: u32, _: u32) -> (u32, u32, u32, u32) {
    match leaf {
        0 => (7, 0x756e6547, 0x6c65746e, 0x49656e69),
        1 => (0x306a9, 0x800, !(1 << 27), !0),
        7 => (0, !0, !0, !0),
        _ => (0, 0, 0, 0),
    }
}
'''
seed('roundeven-sse41','C12',
 'a roundeven of a double of magnitude 2^31 and above with a fraction, on a processor without SSE4.1',
 'roundeven hands large fractional doubles to the rounding instruction of SSE4.1 without asking whether there is one',
 [('roundeven.rs','''pub fn roundeven(x: f64) -> f64 {
    roundeven_impl(x)
''','''pub fn roundeven(x: f64) -> f64 {
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    if (31..52).contains(&x.exp_unbiased()) {
        // SAFETY: any x86-64 rounds
        return unsafe { roundeven_large(x) };
    }
    roundeven_impl(x)
}

#[cfg(all(target_arch = "x86_64", not(miri)))]
#[target_feature(enable = "sse4.1")]
unsafe fn roundeven_large(x: f64) -> f64 {
    use core::arch::x86_64::*;
    let v = _mm_set_sd(x);
    _mm_cvtsd_f64(_mm_round_sd::<{ _MM_FROUND_TO_NEAREST_INT | _MM_FROUND_NO_EXC }>(v, v))
''')],
CPU+'''fn main() {
    let mut bad = None;
    for x in [0.5, 1.5, 2.5e9, 1e12 + 0.5, -3e15 + 0.5, 1e300] {
        if let Some(w) = watch(old, &mut || { black_box(libm::roundeven(black_box(x))); }) { bad = Some(format!("roundeven({x}) executes {w} on a processor that does not have it")); }
    }
    verdict(bad)
}
''')
seed('fma-avx-not-enabled','C12',
 'an fma on a processor with the FMA extension under a system (or in an enclave) that has not enabled the wide registers; everywhere else the right thing happens',
 'fma asks the processor whether it has the instruction, and forgets to ask whether the operating system has enabled the registers it needs',
 [('fma.rs','''    fma_round(x, y, z, Round::Nearest).val
}

/// Fused multiply add (f128)
''','''    #[cfg(all(target_arch = "x86_64", not(miri)))]
    if has_fma() {
        // SAFETY: it is there
        return unsafe { fma_hard(x, y, z) };
    }

    fma_round(x, y, z, Round::Nearest).val
}

#[cfg(all(target_arch = "x86_64", not(miri)))]
#[target_feature(enable = "fma")]
unsafe fn fma_hard(x: f64, y: f64, z: f64) -> f64 {
    use core::arch::x86_64::*;
    _mm_cvtsd_f64(_mm_fmadd_sd(_mm_set_sd(x), _mm_set_sd(y), _mm_set_sd(z)))
}

/// Whether the processor has FMA; asked once.
#[cfg(all(target_arch = "x86_64", not(miri)))]
fn has_fma() -> bool {
    use core::sync::atomic::{AtomicU8, Ordering};
    static KNOWN: AtomicU8 = AtomicU8::new(0);
    match KNOWN.load(Ordering::Relaxed) {
        0 => {
            // SAFETY: leaf 1 is always there
            let yes = unsafe { core::arch::x86_64::__cpuid(1) }.ecx & 1 << 12 != 0;
            KNOWN.store(1 + yes as u8, Ordering::Relaxed);
            yes
        }
        k => k == 2,
    }
}

/// Fused multiply add (f128)
''')],
CPU+'''fn main() {
    let mut bad = None;
    for (x, y, z) in [(1.5, 2.5, 3.5), (1e300, 1e-300, 1e-5), (-0.1, 0.1, 0.01), (3e-310, 0.5, 1e-320)] {
        for id in [old, not_enabled] {
            if child(10, || {
                match watch(id, &mut || { black_box(libm::fma(black_box(x), black_box(y), black_box(z))); }) { Some(_) => 1, None => 0 }
            }) != End::Ok { bad = Some(format!("fma({x}, {y}, {z}) executes AVX where the system has not enabled it")); }
        }
    }
    verdict(bad)
}
''')
seed('ilogb-lzcnt','C12',
 'an ilogb of a subnormal double on a processor that takes the LZCNT instruction for the older BSR',
 'ilogb counts leading zeros with an instruction that older processors silently execute as another one',
 [('ilogb.rs','''        /* subnormal x */
        let mut e = -0x3ff;
        while (i >> 63) == 0 {
            e -= 1;
            i <<= 1;
        }
        e
''','''        /* subnormal x */
        #[cfg(all(target_arch = "x86_64", not(miri)))]
        {
            // SAFETY: old processors have the same encoding
            return -0x3ff - unsafe { leading(i) } as i32;
        }
        #[cfg(not(all(target_arch = "x86_64", not(miri))))]
        {
            -0x3ff - i.leading_zeros() as i32
        }
'''),('ilogb.rs','''#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn ilogb(''','''#[cfg(all(target_arch = "x86_64", not(miri)))]
#[target_feature(enable = "lzcnt")]
unsafe fn leading(i: u64) -> u32 {
    i.leading_zeros()
}

#[cfg_attr(all(test, assert_no_panic), no_panic::no_panic)]
pub fn ilogb(''')],
CPU+'''fn main() {
    let mut bad = None;
    for x in [1.0, 1e-310, 5e-324, -2e-309, 0.0] {
        if let Some(w) = watch(old, &mut || { black_box(libm::ilogb(black_box(x))); }) { bad = Some(format!("ilogb({x}) executes {w} on a processor that does not have it")); }
    }
    verdict(bad)
}
''')
seed('tgamma-sse3','C12',
 'a tgamma of an argument between 8 and 184 on a processor without SSE3',
 'tgamma evaluates numerator and denominator of its large-argument approximation side by side with an alternating addition of SSE3',
 [('tgamma.rs','''    } else {
        for i in 0..=N {
            num = num / x + i!(SNUM, i);
            den = den / x + i!(SDEN, i);
        }
    }
    return num / den;
}
''','''    } else {
        #[cfg(all(target_arch = "x86_64", not(miri)))]
        {
            // SAFETY: two lanes of SSE registers
            (num, den) = unsafe { s_large(x) };
        }
        #[cfg(not(all(target_arch = "x86_64", not(miri))))]
        for i in 0..=N {
            num = num / x + i!(SNUM, i);
            den = den / x + i!(SDEN, i);
        }
    }
    return num / den;
}

/// Both polynomials at once.
#[cfg(all(target_arch = "x86_64", not(miri)))]
#[target_feature(enable = "sse3")]
unsafe fn s_large(x: f64) -> (f64, f64) {
    use core::arch::x86_64::*;
    let d = _mm_set1_pd(x);
    let mut v = _mm_setzero_pd();
    for i in 0..=N {
        // subtracts in the lower lane, adds in the upper one
        v = _mm_addsub_pd(_mm_div_pd(v, d), _mm_set_pd(i!(SDEN, i), -i!(SNUM, i)));
    }
    (_mm_cvtsd_f64(v), _mm_cvtsd_f64(_mm_unpackhi_pd(v, v)))
}
''')],
CPU+'''fn main() {
    let mut bad = None;
    for x in [0.5, 3.5, 7.9, 9.5, 42.5, -13.5, 171.2, 1e3] {
        if let Some(w) = watch(old, &mut || { black_box(libm::tgamma(black_box(x))); }) { bad = Some(format!("tgamma({x}) executes {w} on a processor that does not have it")); }
    }
    verdict(bad)
}
''')
