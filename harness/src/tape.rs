//! Choice-tape generator: every random decision is one bounded integer on a tape, so a case is
//! replayable from the tape and is shrunk by shrinking the tape.

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(23));
    r.next() ^ Rng(b).next().rotate_left(7)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x0100_0000_01b3);
    }
    Rng(h).next()
}

static SPILLING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static SPILL: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);

/// From now on, write every choice to `path` as it is made (survives a crash of the process).
pub fn set_spill(path: &str) {
    *SPILL.lock().unwrap() = std::fs::File::create(path).ok();
    SPILLING.store(true, std::sync::atomic::Ordering::Relaxed);
}

enum Mode {
    Random(Rng),
    Replay(usize),
}

pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
    input: Vec<u64>,
    /// Part of a case: its choices follow from those of the case.
    part: bool,
    /// Soft budget for generated structure; generators consult it to stay small most of the time.
    pub budget: i64,
}

const MAX_TAPE: usize = 400_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        let mut s = Self {
            mode: Mode::Random(Rng(seed)),
            tape: Vec::new(),
            input: Vec::new(),
            part: false,
            budget: 0,
        };
        s.set_budget();
        s
    }

    pub fn replay(input: Vec<u64>) -> Self {
        let mut s = Self {
            mode: Mode::Replay(0),
            tape: Vec::new(),
            input,
            part: false,
            budget: 0,
        };
        s.set_budget();
        s
    }

    /// Choices within a case, all of which follow from one choice of the case.
    pub fn part(&mut self, input: Option<Vec<u64>>) -> Self {
        let seed = if input.is_none() { self.u64_full() } else { 0 };
        let mut s = Self {
            mode: if input.is_none() { Mode::Random(Rng(seed)) } else { Mode::Replay(0) },
            tape: Vec::new(),
            input: input.unwrap_or_default(),
            part: true,
            budget: 0,
        };
        s.set_budget();
        s
    }

    fn set_budget(&mut self) {
        // First choice on the tape: how large this case may grow.
        self.budget = match self.below(16) {
            0..=5 => 12,
            6..=10 => 40,
            11..=13 => 120,
            14 => 400,
            // Rarely, room for one list of thousands.
            _ => match self.below(48) {
                47 => 30_000,
                _ => 1200,
            },
        };
    }

    fn raw(&mut self, n: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => {
                if self.tape.len() >= MAX_TAPE {
                    0
                } else {
                    let x = r.next();
                    ((u128::from(x) * u128::from(n)) >> 64) as u64
                }
            }
            Mode::Replay(p) => {
                let v = self.input.get(*p).copied().unwrap_or(0);
                *p += 1;
                if v >= n { n - 1 } else { v }
            }
        };
        self.push(v);
        v
    }

    fn push(&mut self, v: u64) {
        self.tape.push(v);
        if !self.part && SPILLING.load(std::sync::atomic::Ordering::Relaxed) {
            if let Some(f) = SPILL.lock().unwrap().as_mut() {
                use std::io::Write;
                let _ = writeln!(f, "{v}");
            }
        }
    }

    /// Uniform in 0..n. 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        self.raw(n)
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability 1/n.
    pub fn one_in(&mut self, n: u64) -> bool {
        // 0 must be "false" for shrinking
        self.below(n) == n - 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }

    pub fn u64_full(&mut self) -> u64 {
        match &mut self.mode {
            Mode::Random(r) => {
                let v = r.next();
                self.push(v);
                v
            }
            Mode::Replay(_) => self.raw(u64::MAX),
        }
    }

    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }

    /// A list length: mostly small, sometimes zero, limited by the remaining budget.
    pub fn len(&mut self, min: usize) -> usize {
        // With plenty of room, one list takes most of it.
        let d = self.below(24);
        let d = if self.budget >= 20_000 && d >= 12 { 23 } else { d };
        let n = match d {
            0..=5 => 0,
            6..=12 => 1,
            13..=17 => 2,
            18..=20 => 3,
            21 => self.range(3, 6) as usize,
            22 => self.range(4, 12) as usize,
            _ => match self.below(8) {
                7 if self.budget >= 400 => self.range(40, 300) as usize,
                3..=6 if self.budget >= 20_000 => self.range(200, 5000) as usize,
                _ => self.range(0, 40) as usize,
            },
        };
        let cap = if self.budget <= 0 { 1 } else { (self.budget / 3 + 1) as usize };
        let n = n.min(cap).max(min);
        self.budget -= n as i64;
        n
    }

    pub fn vec<T: Clone>(&mut self, min: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.len(min);
        let mut v: Vec<T> = Vec::with_capacity(n);
        for i in 0..n {
            // Equal elements are of interest too, and random complex elements are rarely equal.
            let e = if i > 0 && self.one_in(16) { v[self.idx(i)].clone() } else { f(self) };
            v.push(e);
        }
        v
    }

    /// A copy of `other` now and then, else a fresh value.
    pub fn same<T: Clone>(&mut self, other: &T, f: impl FnOnce(&mut Self) -> T) -> T {
        if self.one_in(12) { other.clone() } else { f(self) }
    }

    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        if self.bool() { Some(f(self)) } else { None }
    }
}

/// Shrink `tape` while `fails(tape)` (returning the canonical tape actually consumed).
pub fn shrink(
    tape: Vec<u64>,
    max_evals: usize,
    deadline: std::time::Instant,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut cur = tape;
    let mut evals = 0usize;
    let mut try_it = |cand: &[u64], evals: &mut usize| -> Option<Vec<u64>> {
        *evals += 1;
        fails(cand)
    };
    let over = |evals: usize| evals >= max_evals || std::time::Instant::now() > deadline;
    let key = |t: &[u64]| (t.len(), t.to_vec());
    loop {
        let before = key(&cur);
        // 1. delete blocks
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() {
                if over(evals) {
                    return cur;
                }
                let end = (i + size).min(cur.len());
                let mut cand = cur.clone();
                cand.drain(i..end);
                match try_it(&cand, &mut evals) {
                    Some(t) if key(&t) < key(&cur) => cur = t,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 2. zero blocks
        for size in [16usize, 4] {
            let mut i = 0;
            while i < cur.len() {
                if over(evals) {
                    return cur;
                }
                let end = (i + size).min(cur.len());
                if cur[i..end].iter().any(|x| *x != 0) {
                    let mut cand = cur.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    if let Some(t) = try_it(&cand, &mut evals) {
                        if key(&t) < key(&cur) {
                            cur = t;
                        }
                    }
                }
                i += size;
            }
        }
        // 3. minimise single values
        let mut i = 0;
        while i < cur.len() {
            let (mut lo, mut hi) = (0u64, cur[i]);
            let mut first = true;
            while lo < hi {
                if over(evals) {
                    return cur;
                }
                let mid = if first { 0 } else { lo + (hi - lo) / 2 };
                first = false;
                let mut cand = cur.clone();
                cand[i] = mid;
                match try_it(&cand, &mut evals) {
                    Some(t) if key(&t) < key(&cur) => {
                        cur = t;
                        if i >= cur.len() {
                            break;
                        }
                        hi = cur[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if key(&cur) >= before {
            return cur;
        }
    }
}
