use crate::rng::Rng;
/// A stream of decisions. Recording: drawn from a PRNG and logged. Replaying: read back; past the
/// end every decision is 0 (each scenario makes 0 the plainest choice).
pub struct Tape {
    pub vals: Vec<u64>,
    pub pos: usize,
    rng: Option<Rng>,
    past: u64,
}
impl Tape {
    pub fn record(seed: u64) -> Tape {
        Tape { vals: Vec::with_capacity(256), pos: 0, rng: Some(Rng::new(seed)), past: 0 }
    }
    pub fn replay(vals: Vec<u64>) -> Tape {
        Tape { vals, pos: 0, rng: None, past: 0 }
    }
    #[inline(never)]
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if self.pos < self.vals.len() {
            let v = self.vals[self.pos] % n;
            self.pos += 1;
            return v;
        }
        match &mut self.rng {
            Some(r) => {
                let v = r.below(n);
                self.vals.push(v);
                self.pos += 1;
                v
            }
            None => {
                // a cut tape can trap a scenario in a retry loop: give up
                self.past += 1;
                if self.past > 3_000_000 {
                    crate::sys::exit_now(70);
                }
                0
            }
        }
    }
}
