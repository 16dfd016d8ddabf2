//! Random choices drawn from a recorded sequence, so that any generated case can be replayed
//! and shrunk by editing the sequence (smaller numbers and shorter sequences are simpler).

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b);
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub struct Src {
    replay: Vec<u64>,
    rng: Option<Rng>,
    pub taken: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: vec![], rng: Some(Rng::new(seed)), taken: vec![] }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Src { replay: data, rng: None, taken: vec![] }
    }
    /// uniform in 0..n (n >= 1); 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if let Some(r) = &mut self.rng {
            r.next() % n
        } else {
            let i = self.taken.len();
            let v = self.replay.get(i).copied().unwrap_or(0);
            if v >= n { v % n } else { v }
        };
        self.taken.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range, simplest = lo
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den; simplest = false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.us(xs.len())]
    }
    /// weighted index; put simplest first
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut k = self.below(tot);
        for (i, w) in ws.iter().enumerate() {
            if k < *w as u64 {
                return i;
            }
            k -= *w as u64;
        }
        ws.len() - 1
    }
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 30) as f64 / (1u64 << 30) as f64
    }
    pub fn shuffle<X>(&mut self, v: &mut [X]) {
        for i in (1..v.len()).rev() {
            // simplest (0) leaves the order alone
            let j = i - self.us(i + 1);
            v.swap(i, j);
        }
    }
}

/// Shrink a failing choice sequence. `still` returns true if the candidate fails in the same way.
pub fn shrink(start: Vec<u64>, budget: usize, mut still: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let mut try_one = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        if let Some(taken) = still(&cand) {
            // accept only if simpler: shorter, or same length and lexicographically smaller
            if taken.len() < best.len() || (taken.len() == best.len() && taken < *best) {
                *best = taken;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = 16usize;
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                let mut c = best.clone();
                c.drain(lo..i.min(c.len()));
                if !try_one(c, &mut best, &mut left) {
                    // delete and zero the preceding choice (e.g. a count)
                    if lo > 0 && best[lo - 1] > 0 {
                        let mut c = best.clone();
                        c[lo - 1] -= 1;
                        c.drain(lo..i.min(c.len()));
                        try_one(c, &mut best, &mut left);
                    }
                }
                i = lo.min(best.len());
                if left == 0 {
                    return best;
                }
            }
            size /= 2;
        }
        // zero chunks
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|v| *v = 0);
                    try_one(c, &mut best, &mut left);
                }
                i += size;
            }
        }
        // lower each value
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_one(c, &mut best, &mut left) {
                    // binary search downwards
                    let mut lo = 0u64;
                    while i < best.len() && lo + 1 < best[i] && left > 0 {
                        let mid = lo + (best[i] - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if !try_one(c, &mut best, &mut left) {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        try_one(c, &mut best, &mut left);
                    }
                }
            }
            i += 1;
        }
        if left == 0 || best == before {
            return best;
        }
    }
}
